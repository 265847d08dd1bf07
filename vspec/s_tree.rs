// ---- the tree of accounts: order of names, list of accounts, sums of postings (C04)
use vstd::relations::*;
use vstd::multiset::*;
/// order of texts
pub open spec fn sle(a: Seq<char>, b: Seq<char>) -> bool
    decreases a.len()
{ if a.len() == 0 { true } else if b.len() == 0 { false } else if a[0] != b[0] { a[0] < b[0] } else { sle(a.skip(1), b.skip(1)) } }
pub open spec fn s_order() -> spec_fn(Seq<char>, Seq<char>) -> bool { |a: Seq<char>, b: Seq<char>| sle(a, b) }
proof fn sle_refl(a: Seq<char>) ensures sle(a, a) decreases a.len() { if a.len() > 0 { sle_refl(a.skip(1)); } }
proof fn sle_total(a: Seq<char>, b: Seq<char>) ensures sle(a, b) || sle(b, a) decreases a.len() { if a.len() > 0 && b.len() > 0 { sle_total(a.skip(1), b.skip(1)); } }
proof fn sle_anti(a: Seq<char>, b: Seq<char>) ensures sle(a, b) && sle(b, a) ==> a == b decreases a.len() {
    if a.len() > 0 && b.len() > 0 { sle_anti(a.skip(1), b.skip(1)); if sle(a, b) && sle(b, a) { assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); } }
    else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
proof fn sle_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures sle(a, b) && sle(b, c) ==> sle(a, c) decreases a.len() { if a.len() > 0 && b.len() > 0 && c.len() > 0 { sle_trans(a.skip(1), b.skip(1), c.skip(1)); } }
pub proof fn s_order_total() ensures total_ordering(s_order()) {
    let r = s_order();
    assert forall|a: Seq<char>| #[trigger] r(a, a) by { sle_refl(a); }
    assert forall|a: Seq<char>, b: Seq<char>| #[trigger] r(a, b) && #[trigger] r(b, a) implies a == b by { sle_anti(a, b); }
    assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] r(a, b) && #[trigger] r(b, c) implies r(a, c) by { sle_trans(a, b, c); }
    assert forall|a: Seq<char>, b: Seq<char>| #[trigger] r(a, b) || #[trigger] r(b, a) by { sle_total(a, b); }
}
/// the keys in order
pub open spec fn names<V>(m: Map<Seq<char>, V>) -> Seq<Seq<char>> { m.dom().to_seq().sort_by(s_order()) }
pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
impl<V> HashMap<String, V> {
    /// keys().collect(), the texts by value
    #[verifier::external_body]
    pub fn v_keys(&self) -> (r: Vec<String>) ensures texts(r@).to_multiset() == self@.dom().to_seq().to_multiset() { unimplemented!() }
}
#[verifier::external_body]
pub fn v_sort(v: &mut Vec<String>) ensures vstd::relations::sorted_by(texts(final(v)@), s_order()), texts(final(v)@).to_multiset() == texts(old(v)@).to_multiset() { unimplemented!() }
impl<V: Copy> HashMap<String, V> {
    /// values().collect(), for pointers
    #[verifier::external_body]
    pub fn v_values(&self) -> (r: Vec<V>) ensures r@.to_multiset() == names(self@).map_values(|k: Seq<char>| self@[k]).to_multiset() { unimplemented!() }
}
pub proof fn names_are<V>(m: Map<Seq<char>, V>, r: Seq<Seq<char>>)
    requires sorted_by(r, s_order()), r.to_multiset() == m.dom().to_seq().to_multiset(),
    ensures r == names(m),
{
    s_order_total();
    m.dom().to_seq().lemma_sort_by_ensures(s_order());
    vstd::seq_lib::lemma_sorted_unique(r, names(m), s_order());
}
/// every key once
pub proof fn names_props<V>(m: Map<Seq<char>, V>)
    ensures forall|k: Seq<char>| #[trigger] names(m).contains(k) <==> m.contains_key(k), names(m).no_duplicates(), sorted_by(names(m), s_order()),
{
    s_order_total();
    let d = m.dom().to_seq();
    d.lemma_sort_by_ensures(s_order());
    m.dom().lemma_to_seq_no_duplicates(); m.dom().lemma_to_seq_to_set_id();
    d.lemma_multiset_has_no_duplicates();
    names(m).lemma_multiset_has_no_duplicates_conv();
    assert forall|k: Seq<char>| #[trigger] names(m).contains(k) <==> m.contains_key(k) by {
        names(m).to_multiset_ensures(); d.to_multiset_ensures();
        assert(names(m).contains(k) <==> names(m).to_multiset().count(k) > 0);
        assert(d.contains(k) <==> d.to_multiset().count(k) > 0);
        assert(d.to_set().contains(k) <==> d.contains(k));
    }
}
/// images of the same elements are the same elements
pub proof fn map_ms<A, B>(a: Seq<A>, b: Seq<A>, f: spec_fn(A) -> B)
    requires a.to_multiset() == b.to_multiset(),
    ensures a.map_values(f).to_multiset() == b.map_values(f).to_multiset(),
    decreases a.len(),
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert(a.len() == b.len());
    if a.len() > 0 {
        let x = a.last(); let n = a.len() - 1;
        assert(a.to_multiset().count(x) > 0) by { assert(a.contains(x)); }
        assert(b.contains(x));
        let i = b.index_of(x);
        assert(b[i] == x);
        assert(a.drop_last() =~= a.remove(n));
        assert(a.remove(n).to_multiset() =~= a.to_multiset().remove(x));
        assert(b.remove(i).to_multiset() =~= b.to_multiset().remove(x));
        map_ms(a.drop_last(), b.remove(i), f);
        let fa = a.map_values(f); let fb = b.map_values(f);
        fa.to_multiset_ensures(); fb.to_multiset_ensures();
        assert(fa.remove(n) =~= a.drop_last().map_values(f));
        assert(fb.remove(i) =~= b.remove(i).map_values(f));
        assert(fa.remove(n).to_multiset() =~= fa.to_multiset().remove(fa[n]));
        assert(fb.remove(i).to_multiset() =~= fb.to_multiset().remove(fb[i]));
        assert(fa[n] == f(x) && fb[i] == f(x));
        assert(fa.to_multiset().count(f(x)) > 0) by { assert(fa.contains(fa[n])); }
        assert(fb.to_multiset().count(f(x)) > 0) by { assert(fb.contains(fb[i])); }
        assert(fa.to_multiset() =~= fa.to_multiset().remove(f(x)).insert(f(x)));
        assert(fb.to_multiset() =~= fb.to_multiset().remove(f(x)).insert(f(x)));
    } else {
        assert(a =~= b);
    }
}
/// the sub-accounts in the order of their names
pub open spec fn kidseq(h: Heap, p: VPtr<Account>) -> Seq<VPtr<Account>> { names(kids(h, p)).map_values(|k: Seq<char>| kids(h, p)[k]) }
pub open spec fn nm(h: Heap, p: VPtr<Account>) -> Seq<char> { h[p].name@ }
pub open spec fn nms(h: Heap, s: Seq<VPtr<Account>>) -> Seq<Seq<char>> { s.map_values(|p: VPtr<Account>| nm(h, p)) }
impl AHeap {
    /// sort_by_key(|a| &a.name)
    #[verifier::external_body]
    pub fn v_sort_by_name(&self, v: &mut Vec<VPtr<Account>>)
        requires forall|i: int| 0 <= i < old(v)@.len() ==> self@.contains_key(#[trigger] old(v)@[i])
        ensures sorted_by(nms(self@, final(v)@), s_order()), final(v)@.to_multiset() == old(v)@.to_multiset() { unimplemented!() }
}
pub proof fn kidseq_props(h: Heap, p: VPtr<Account>)
    requires heap_ok(h), h.contains_key(p),
    ensures kidseq(h, p).no_duplicates(), kidseq(h, p).len() == names(kids(h, p)).len(),
        forall|i: int| 0 <= i < kidseq(h, p).len() ==> h.contains_key(#[trigger] kidseq(h, p)[i]) && h[kidseq(h, p)[i]].parent == p && ord(p) < ord(kidseq(h, p)[i]) && kidseq(h, p)[i] != nullp::<Account>() && kids(h, p).contains_key(names(kids(h, p))[i]) && nm(h, kidseq(h, p)[i]) == names(kids(h, p))[i],
        forall|k: Seq<char>| #[trigger] kids(h, p).contains_key(k) ==> kidseq(h, p).contains(kids(h, p)[k]),
{
    let m = kids(h, p); let ns = names(m); let ks = kidseq(h, p);
    names_props(m);
    assert(node_ok(h, p));
    assert forall|i: int| 0 <= i < ks.len() implies h.contains_key(#[trigger] ks[i]) && h[ks[i]].parent == p && ord(p) < ord(ks[i]) && ks[i] != nullp::<Account>() && m.contains_key(ns[i]) && nm(h, ks[i]) == ns[i] by {
        assert(ns.contains(ns[i])); assert(kid_ok(h, p, ns[i]));
    }
    assert forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < ks.len() && i != j implies ks[i] != ks[j] by { assert(ns[i] != ns[j]); assert(nm(h, ks[i]) == ns[i]); assert(nm(h, ks[j]) == ns[j]); }
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies ks.contains(m[k]) by { assert(ns.contains(k)); let i = ns.index_of(k); assert(ks[i] == m[k]); }
}
pub proof fn sorted_kids(h: Heap, p: VPtr<Account>, r: Seq<VPtr<Account>>)
    requires heap_ok(h), h.contains_key(p), sorted_by(nms(h, r), s_order()), r.to_multiset() == kidseq(h, p).to_multiset(),
    ensures r == kidseq(h, p),
{
    kidseq_props(h, p); names_props(kids(h, p)); s_order_total();
    let ks = kidseq(h, p);
    map_ms(r, ks, |q: VPtr<Account>| nm(h, q));
    assert(nms(h, ks) =~= names(kids(h, p)));
    vstd::seq_lib::lemma_sorted_unique(nms(h, r), names(kids(h, p)), s_order());
    r.to_multiset_ensures(); ks.to_multiset_ensures();
    assert forall|i: int| 0 <= i < r.len() implies r[i] == ks[i] by {
        assert(r.contains(r[i])); assert(r.to_multiset().count(r[i]) > 0); assert(ks.contains(r[i]));
        let j = ks.index_of(r[i]);
        assert(nms(h, r)[i] == names(kids(h, p))[i]); assert(names(kids(h, p))[j] == names(kids(h, p))[i]); 
    }
    assert(r =~= ks);
}
pub proof fn kids_in(h: Heap, p: VPtr<Account>, r: Seq<VPtr<Account>>)
    requires heap_ok(h), h.contains_key(p), r.to_multiset() == kidseq(h, p).to_multiset(),
    ensures forall|i: int| 0 <= i < r.len() ==> h.contains_key(#[trigger] r[i]),
{
    kidseq_props(h, p);
    let ks = kidseq(h, p);
    r.to_multiset_ensures(); ks.to_multiset_ensures();
    assert forall|i: int| 0 <= i < r.len() implies h.contains_key(#[trigger] r[i]) by { assert(r.contains(r[i])); assert(r.to_multiset().count(r[i]) > 0); assert(ks.contains(r[i])); let j = ks.index_of(r[i]); assert(ks[j] == r[i]); }
}
/// how many accounts were made after p
pub open spec fn later(h: Heap, p: VPtr<Account>) -> nat { h.dom().filter(|q: VPtr<Account>| ord(p) < ord(q)).len() }
pub proof fn later_less(h: Heap, p: VPtr<Account>, c: VPtr<Account>)
    requires h.contains_key(c), ord(p) < ord(c),
    ensures later(h, c) < later(h, p),
{
    let a = h.dom().filter(|q: VPtr<Account>| ord(p) < ord(q)); let b = h.dom().filter(|q: VPtr<Account>| ord(c) < ord(q));
    assert(b.subset_of(a)); assert(a.contains(c) && !b.contains(c));
    vstd::set_lib::lemma_len_subset(b, a.remove(c));
}
/// p, then everything below its first i sub-accounts
pub open spec fn fl_to(h: Heap, p: VPtr<Account>, i: int) -> Seq<VPtr<Account>>
    decreases later(h, p), i
    when heap_ok(h) && h.contains_key(p) && i <= kidseq(h, p).len() via fl_dec
{ if i <= 0 { seq![p] } else { let c = kidseq(h, p)[i - 1]; fl_to(h, p, i - 1) + fl_to(h, c, kidseq(h, c).len() as int) } }
#[via_fn]
proof fn fl_dec(h: Heap, p: VPtr<Account>, i: int) { if i > 0 { kidseq_props(h, p); later_less(h, p, kidseq(h, p)[i - 1]); } }
/// the account and all below it: each before its sub-accounts, these in the order of their names
pub open spec fn fl(h: Heap, p: VPtr<Account>) -> Seq<VPtr<Account>> { fl_to(h, p, kidseq(h, p).len() as int) }
// ---- postings
#[verifier::external_body]
pub struct PHeap { x: u8 }
pub type Posts = Map<VPtr<Post>, Post>;
impl PHeap {
    pub uninterp spec fn view(&self) -> Posts;
    pub open spec fn s_at(&self, p: VPtr<Post>) -> Post { self@[p] }
    #[verifier::external_body]
    pub fn at(&self, p: VPtr<Post>) -> (r: &Post) requires self@.contains_key(p) ensures *r == self@[p] { unimplemented!() }
}
pub open spec fn pq(p: Post, c: VPtr<Commodity>) -> real { match p.amount { Some(a) => if a.commodity == c { qv(a.quantity) } else { 0real }, None => 0real } }
/// sum of the postings in the commodity
pub open spec fn psum(ph: Posts, s: Seq<VPtr<Post>>, c: VPtr<Commodity>) -> real
    decreases s.len()
{ if s.len() == 0 { 0real } else { psum(ph, s.drop_last(), c) + pq(ph[s.last()], c) } }
pub open spec fn own(h: Heap, ph: Posts, p: VPtr<Account>, c: VPtr<Commodity>) -> real { psum(ph, h[p].posts@, c) }
pub open spec fn posts_at(h: Heap, ph: Posts) -> bool { forall|p: VPtr<Account>, i: int| h.contains_key(p) && 0 <= i < h[p].posts@.len() ==> ph.contains_key(#[trigger] h[p].posts@[i]) }
/// the account's own postings and those below its first i sub-accounts
pub open spec fn tot_to(h: Heap, ph: Posts, p: VPtr<Account>, c: VPtr<Commodity>, i: int) -> real
    decreases later(h, p), i
    when heap_ok(h) && h.contains_key(p) && i <= kidseq(h, p).len() via tot_dec
{ if i <= 0 { own(h, ph, p, c) } else { let k = kidseq(h, p)[i - 1]; tot_to(h, ph, p, c, i - 1) + tot_to(h, ph, k, c, kidseq(h, k).len() as int) } }
#[via_fn]
proof fn tot_dec(h: Heap, ph: Posts, p: VPtr<Account>, c: VPtr<Commodity>, i: int) { if i > 0 { kidseq_props(h, p); later_less(h, p, kidseq(h, p)[i - 1]); } }
pub open spec fn tot(h: Heap, ph: Posts, p: VPtr<Account>, c: VPtr<Commodity>) -> real { tot_to(h, ph, p, c, kidseq(h, p).len() as int) }
pub open spec fn own_list(h: Heap, ph: Posts, s: Seq<VPtr<Account>>, c: VPtr<Commodity>) -> real
    decreases s.len()
{ if s.len() == 0 { 0real } else { own_list(h, ph, s.drop_last(), c) + own(h, ph, s.last(), c) } }
pub proof fn own_list_cat(h: Heap, ph: Posts, a: Seq<VPtr<Account>>, b: Seq<VPtr<Account>>, c: VPtr<Commodity>)
    ensures own_list(h, ph, a + b, c) == own_list(h, ph, a, c) + own_list(h, ph, b, c),
    decreases b.len(),
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); own_list_cat(h, ph, a, b.drop_last(), c); } }
/// The total counts the postings of the account and of every account below it, each once.
pub proof fn tot_counts(h: Heap, ph: Posts, p: VPtr<Account>, c: VPtr<Commodity>, i: int)
    requires heap_ok(h), h.contains_key(p), 0 <= i <= kidseq(h, p).len(),
    ensures tot_to(h, ph, p, c, i) == own_list(h, ph, fl_to(h, p, i), c),
    decreases later(h, p), i,
{
    if i <= 0 { assert(seq![p].drop_last() =~= Seq::<VPtr<Account>>::empty()); assert(own_list(h, ph, seq![p].drop_last(), c) == 0real); }
    else {
        let k = kidseq(h, p)[i - 1]; kidseq_props(h, p); later_less(h, p, k);
        tot_counts(h, ph, p, c, i - 1); tot_counts(h, ph, k, c, kidseq(h, k).len() as int);
        own_list_cat(h, ph, fl_to(h, p, i - 1), fl(h, k), c);
    }
}
/// q is p or lies below it
pub open spec fn under(h: Heap, p: VPtr<Account>, q: VPtr<Account>) -> bool
    decreases ord(q) when heap_ok(h) && h.contains_key(q) via under_dec
{ q == p || (h[q].parent != nullp::<Account>() && under(h, p, h[q].parent)) }
#[via_fn]
proof fn under_dec(h: Heap, p: VPtr<Account>, q: VPtr<Account>) { assert(node_ok(h, q)); if h[q].parent != nullp::<Account>() { kid_at(h, h[q].parent, h[q].name@); } }
pub proof fn under_ord(h: Heap, p: VPtr<Account>, q: VPtr<Account>)
    requires heap_ok(h), h.contains_key(q), under(h, p, q),
    ensures ord(p) <= ord(q), q != p ==> ord(p) < ord(q), h.contains_key(p),
    decreases ord(q),
{ assert(node_ok(h, q)); if q != p { kid_at(h, h[q].parent, h[q].name@); under_ord(h, p, h[q].parent); } }
pub proof fn under_two(h: Heap, a: VPtr<Account>, b: VPtr<Account>, q: VPtr<Account>)
    requires heap_ok(h), h.contains_key(q), under(h, a, q), under(h, b, q),
    ensures under(h, a, b) || under(h, b, a), h.contains_key(a), h.contains_key(b),
    decreases ord(q),
{ under_ord(h, a, q); under_ord(h, b, q); assert(node_ok(h, q)); if q != a && q != b { kid_at(h, h[q].parent, h[q].name@); under_two(h, a, b, h[q].parent); } }
/// siblings have nothing below both
pub proof fn siblings_apart(h: Heap, p: VPtr<Account>, a: VPtr<Account>, b: VPtr<Account>, q: VPtr<Account>)
    requires heap_ok(h), h.contains_key(p), h.contains_key(a), h.contains_key(b), h[a].parent == p, h[b].parent == p, p != nullp::<Account>(), a != b, h.contains_key(q), under(h, a, q), under(h, b, q),
    ensures false,
{
    under_two(h, a, b, q); assert(node_ok(h, a)); assert(node_ok(h, b)); kid_at(h, p, h[a].name@); kid_at(h, p, h[b].name@);
    if under(h, a, b) { under_ord(h, a, p); } else { under_ord(h, b, p); }
}
/// a below p: under p means p itself, or below one of its sub-accounts
pub proof fn under_kid(h: Heap, p: VPtr<Account>, q: VPtr<Account>)
    requires heap_ok(h), h.contains_key(p), h.contains_key(q), under(h, p, q), q != p,
    ensures exists|i: int| 0 <= i < kidseq(h, p).len() && under(h, #[trigger] kidseq(h, p)[i], q),
    decreases ord(q),
{
    let u = h[q].parent;
    assert(node_ok(h, q)); kid_at(h, u, h[q].name@);
    if u == p { kidseq_props(h, p); assert(kidseq(h, p).contains(q)); let i = kidseq(h, p).index_of(q); assert(under(h, kidseq(h, p)[i], q)); }
    else { under_kid(h, p, u); let i = choose|i: int| 0 <= i < kidseq(h, p).len() && under(h, #[trigger] kidseq(h, p)[i], u); assert(under(h, kidseq(h, p)[i], q)); }
}
pub proof fn under_trans(h: Heap, a: VPtr<Account>, b: VPtr<Account>, q: VPtr<Account>)
    requires heap_ok(h), h.contains_key(q), under(h, b, q), h.contains_key(b), under(h, a, b),
    ensures under(h, a, q),
    decreases ord(q),
{ if q != b { assert(node_ok(h, q)); kid_at(h, h[q].parent, h[q].name@); under_trans(h, a, b, h[q].parent); } }
/// The list holds the account and everything below it, each exactly once.
pub open spec fn fl_part(h: Heap, p: VPtr<Account>, i: int, q: VPtr<Account>) -> bool { q == p || exists|j: int| 0 <= j < i && under(h, #[trigger] kidseq(h, p)[j], q) }
pub proof fn fl_once(h: Heap, p: VPtr<Account>, i: int)
    requires heap_ok(h), h.contains_key(p), 0 <= i <= kidseq(h, p).len(),
    ensures fl_to(h, p, i).no_duplicates(), fl_to(h, p, i).len() > 0, fl_to(h, p, i)[0] == p, forall|q: VPtr<Account>| #[trigger] fl_to(h, p, i).contains(q) <==> h.contains_key(q) && fl_part(h, p, i, q),
    decreases later(h, p), i,
{
    let l = fl_to(h, p, i);
    assert(node_ok(h, p));
    if i <= 0 { assert forall|q: VPtr<Account>| #[trigger] l.contains(q) <==> h.contains_key(q) && fl_part(h, p, i, q) by { if q == p { assert(l[0] == p); } } }
    else {
        kidseq_props(h, p);
        let c = kidseq(h, p)[i - 1]; later_less(h, p, c);
        let a = fl_to(h, p, i - 1); let b = fl(h, c);
        fl_once(h, p, i - 1); fl_once(h, c, kidseq(h, c).len() as int);
        assert forall|q: VPtr<Account>| #[trigger] b.contains(q) <==> h.contains_key(q) && under(h, c, q) by {
            if b.contains(q) && q != c { let j = choose|j: int| 0 <= j < kidseq(h, c).len() && under(h, #[trigger] kidseq(h, c)[j], q); kidseq_props(h, c); let d = kidseq(h, c)[j]; assert(under(h, c, c)); assert(under(h, c, d)); under_trans(h, c, d, q); }
            if h.contains_key(q) && under(h, c, q) && q != c { under_kid(h, c, q); }
        }
        assert forall|q: VPtr<Account>| a.contains(q) implies !b.contains(q) by {
            if b.contains(q) {
                under_ord(h, c, q);
                if q == p { assert(false); }
                let j = choose|j: int| 0 <= j < i - 1 && under(h, #[trigger] kidseq(h, p)[j], q);
                siblings_apart(h, p, kidseq(h, p)[j], c, q);
            }
        }
        assert forall|x: int, y: int| 0 <= x < l.len() && 0 <= y < l.len() && x != y implies l[x] != l[y] by {
            if x < a.len() && y >= a.len() { assert(a.contains(l[x])); assert(b.contains(b[y - a.len()])); }
            else if y < a.len() && x >= a.len() { assert(a.contains(l[y])); assert(b.contains(b[x - a.len()])); }
            else if x >= a.len() { assert(b[x - a.len()] != b[y - a.len()]); }
        }
        assert forall|q: VPtr<Account>| #[trigger] l.contains(q) <==> h.contains_key(q) && fl_part(h, p, i, q) by {
            if l.contains(q) { let x = l.index_of(q); if x < a.len() { assert(a.contains(q)); } else { assert(b.contains(b[x - a.len()])); assert(under(h, kidseq(h, p)[i - 1], q)); } }
            if h.contains_key(q) && fl_part(h, p, i, q) {
                if a.contains(q) { let x = a.index_of(q); assert(l[x] == q); }
                else { let j = choose|j: int| 0 <= j < i && under(h, #[trigger] kidseq(h, p)[j], q); assert(j == i - 1); assert(b.contains(q)); let x = b.index_of(q); assert(l[a.len() + x] == q); }
            }
        }
    }
}
/// the accounts of a journal: all lie below the master account, which has no name
pub open spec fn one_root(h: Heap, m: VPtr<Account>) -> bool { heap_ok(h) && h.contains_key(m) && h[m].parent == nullp::<Account>() && h[m].name@.len() == 0 && forall|q: VPtr<Account>| #[trigger] h.contains_key(q) && h[q].parent == nullp::<Account>() ==> q == m }
pub proof fn all_under(h: Heap, m: VPtr<Account>, q: VPtr<Account>)
    requires one_root(h, m), h.contains_key(q),
    ensures under(h, m, q),
    decreases ord(q),
{ if q != m { assert(node_ok(h, q)); kid_at(h, h[q].parent, h[q].name@); all_under(h, m, h[q].parent); } }
/// The list from the master account holds every account exactly once.
pub proof fn fl_all(h: Heap, m: VPtr<Account>)
    requires one_root(h, m),
    ensures fl(h, m).no_duplicates(), forall|q: VPtr<Account>| #[trigger] fl(h, m).contains(q) <==> h.contains_key(q),
{
    fl_once(h, m, kidseq(h, m).len() as int);
    assert forall|q: VPtr<Account>| #[trigger] fl(h, m).contains(q) <==> h.contains_key(q) by { if h.contains_key(q) && q != m { all_under(h, m, q); under_kid(h, m, q); } }
}
/// registering keeps the single root
pub proof fn root_kept(h: Heap, h2: Heap, m: VPtr<Account>, s: Seq<char>, r: VPtr<Account>)
    requires one_root(h, m), a_reg(h, h2, m, s, r),
    ensures one_root(h2, m),
{
    registered(h, h2, m, s, r);
    assert(h.contains_key(m)); assert(same_acct(h[m], h2[m]));
    assert forall|q: VPtr<Account>| #[trigger] h2.contains_key(q) && h2[q].parent == nullp::<Account>() implies q == m by {
        if h.contains_key(q) { assert(same_acct(h[q], h2[q])); } else { path_parent(h2, m, s, q); }
    }
}
pub proof fn path_parent(h: Heap, p: VPtr<Account>, s: Seq<char>, q: VPtr<Account>)
    requires heap_ok(h), h.contains_key(p), on_path(h, p, s, q),
    ensures h.contains_key(q), h[q].parent != nullp::<Account>(),
    decreases s.len(),
{ rest_shorter(s); kid_at(h, p, nm_first(s)); assert(node_ok(h, p)); if q != kids(h, p)[nm_first(s)] { path_parent(h, kids(h, p)[nm_first(s)], nm_rest(s), q); } }
