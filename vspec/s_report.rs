// ---- the balance report (C04)
/// the text of a quantity (Display of Quantity)
pub uninterp spec fn qtext(q: Quantity) -> Seq<char>;
#[verifier::external_body]
pub fn v_qtext(q: &Quantity) -> (r: String) ensures r@ == qtext(*q) { unimplemented!() }
#[verifier::external_body]
pub fn v_extend<T>(a: &mut Vec<T>, b: Vec<T>) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
/// the quantity, and a blank and the symbol when there is a commodity
pub open spec fn atext(a: Amount) -> Seq<char> { match a.s_get_commodity() { Some(c) => qtext(a.quantity) + seq![' '] + c.symbol@, None => qtext(a.quantity) } }
pub open spec fn btext(s: Seq<Amount>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { btext(s.drop_last()) + atext(s.last()) } }
/// a balance that holds these sums
pub open spec fn bal_is(h: Heap, ph: Posts, p: VPtr<Account>, b: Seq<Amount>) -> bool { bal_wf(b) && forall|c: VPtr<Commodity>| #[trigger] bal_sum(b, c) == tot(h, ph, p, c) }
pub open spec fn line_text(name: Seq<char>, b: Seq<Amount>) -> Seq<char> { "Account "@ + name + " has balance "@ + btext(b) }
/// the line of the account: its full name and its total
pub open spec fn line_ok(h: Heap, ph: Posts, p: VPtr<Account>, l: Seq<char>) -> bool { exists|b: Seq<Amount>| #[trigger] bal_is(h, ph, p, b) && l == line_text(full(h, p), b) }
pub open spec fn lines_ok(h: Heap, ph: Posts, ps: Seq<VPtr<Account>>, ls: Seq<String>) -> bool { ls.len() == ps.len() && forall|i: int| 0 <= i < ps.len() ==> line_ok(h, ph, #[trigger] ps[i], ls[i]@) }
/// only names were worked out
pub open spec fn same_tree(h: Heap, h2: Heap) -> bool {
    (forall|q: VPtr<Account>| #[trigger] h.contains_key(q) <==> h2.contains_key(q))
    && forall|q: VPtr<Account>| #[trigger] h.contains_key(q) ==> h2[q].parent == h[q].parent && h2[q].name == h[q].name && h2[q].posts == h[q].posts && h2[q].accounts == h[q].accounts
}
pub proof fn same_ok(h: Heap, h2: Heap)
    requires heap_ok(h), same_tree(h, h2),
    ensures heap_ok(h2), same_tree(h2, h),
{
    assert forall|q: VPtr<Account>| #[trigger] h2.contains_key(q) <==> h.contains_key(q) by { assert(h.contains_key(q) <==> h2.contains_key(q)); }
    assert forall|p: VPtr<Account>| #[trigger] h2.contains_key(p) implies node_ok(h2, p) by {
        assert(h.contains_key(p)); assert(node_ok(h, p));
        assert forall|k: Seq<char>| #[trigger] kids(h2, p).contains_key(k) implies kid_ok(h2, p, k) by { assert(kids(h, p).contains_key(k)); assert(kid_ok(h, p, k)); assert(h.contains_key(kids(h, p)[k])); }
        if h[p].parent != nullp::<Account>() { assert(h.contains_key(h[p].parent)); }
    }
}
pub proof fn same_full(h: Heap, h2: Heap, p: VPtr<Account>)
    requires heap_ok(h), same_tree(h, h2), h.contains_key(p),
    ensures full(h2, p) == full(h, p),
{ same_ok(h, h2); above_kept(h, h2, p, h[p].name@); }
pub proof fn same_fl(h: Heap, h2: Heap, p: VPtr<Account>, i: int)
    requires heap_ok(h), same_tree(h, h2), h.contains_key(p), 0 <= i <= kidseq(h, p).len(),
    ensures kidseq(h2, p) == kidseq(h, p), fl_to(h2, p, i) == fl_to(h, p, i), later(h2, p) == later(h, p),
    decreases later(h, p), i,
{
    same_ok(h, h2);
    assert(h2.dom() =~= h.dom());
    assert(kidseq(h2, p) =~= kidseq(h, p));
    if i > 0 { kidseq_props(h, p); let c = kidseq(h, p)[i - 1]; later_less(h, p, c); same_fl(h, h2, p, i - 1); same_fl(h, h2, c, kidseq(h, c).len() as int); }
}
pub proof fn same_tot(h: Heap, h2: Heap, ph: Posts, p: VPtr<Account>, c: VPtr<Commodity>, i: int)
    requires heap_ok(h), same_tree(h, h2), h.contains_key(p), 0 <= i <= kidseq(h, p).len(),
    ensures tot_to(h2, ph, p, c, i) == tot_to(h, ph, p, c, i), kidseq(h2, p) == kidseq(h, p),
    decreases later(h, p), i,
{
    same_ok(h, h2); same_fl(h, h2, p, i);
    if i > 0 { kidseq_props(h, p); let k = kidseq(h, p)[i - 1]; later_less(h, p, k); same_tot(h, h2, ph, p, c, i - 1); same_tot(h, h2, ph, k, c, kidseq(h, k).len() as int); }
}
pub proof fn same_line(h: Heap, h2: Heap, ph: Posts, p: VPtr<Account>, l: Seq<char>)
    requires heap_ok(h), same_tree(h, h2), h.contains_key(p), line_ok(h, ph, p, l),
    ensures line_ok(h2, ph, p, l),
{
    let b = choose|b: Seq<Amount>| #[trigger] bal_is(h, ph, p, b) && l == line_text(full(h, p), b);
    same_full(h, h2, p);
    assert forall|c: VPtr<Commodity>| #[trigger] bal_sum(b, c) == tot(h2, ph, p, c) by { same_tot(h, h2, ph, p, c, kidseq(h, p).len() as int); }
    assert(bal_is(h2, ph, p, b));
}
pub proof fn same_lines(h: Heap, h2: Heap, ph: Posts, ps: Seq<VPtr<Account>>, ls: Seq<String>)
    requires heap_ok(h), same_tree(h, h2), lines_ok(h, ph, ps, ls), forall|i: int| 0 <= i < ps.len() ==> h.contains_key(#[trigger] ps[i]),
    ensures lines_ok(h2, ph, ps, ls),
{ assert forall|i: int| 0 <= i < ps.len() implies line_ok(h2, ph, #[trigger] ps[i], ls[i]@) by { same_line(h, h2, ph, ps[i], ls[i]@); } }
pub proof fn fl_in(h: Heap, p: VPtr<Account>, i: int)
    requires heap_ok(h), h.contains_key(p), 0 <= i <= kidseq(h, p).len(),
    ensures forall|k: int| 0 <= k < fl_to(h, p, i).len() ==> h.contains_key(#[trigger] fl_to(h, p, i)[k]),
{ fl_once(h, p, i); assert forall|k: int| 0 <= k < fl_to(h, p, i).len() implies h.contains_key(#[trigger] fl_to(h, p, i)[k]) by { assert(fl_to(h, p, i).contains(fl_to(h, p, i)[k])); } }
/// working out the name of p keeps the rest
pub proof fn same_names(h: Heap, h2: Heap, p: VPtr<Account>)
    requires heap_ok(h), names_ok(h), h.contains_key(p), same_tree(h, h2), forall|q: VPtr<Account>| #[trigger] h.contains_key(q) && q != p ==> h2[q] == h[q], h2[p].fullname@ is Some ==> h2[p].fullname@->0 == full(h, p),
    ensures heap_ok(h2), names_ok(h2),
{
    same_ok(h, h2);
    assert forall|q: VPtr<Account>| #[trigger] h2.contains_key(q) && h2[q].fullname@ is Some implies h2[q].fullname@->0 == full(h2, q) by { same_full(h, h2, q); }
}
pub proof fn lines_cat(h: Heap, ph: Posts, a: Seq<VPtr<Account>>, la: Seq<String>, b: Seq<VPtr<Account>>, lb: Seq<String>)
    requires lines_ok(h, ph, a, la), lines_ok(h, ph, b, lb),
    ensures lines_ok(h, ph, a + b, la + lb),
{ assert forall|i: int| 0 <= i < (a + b).len() implies line_ok(h, ph, #[trigger] (a + b)[i], (la + lb)[i]@) by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
pub proof fn posts_same(h: Heap, h2: Heap, ph: Posts)
    requires same_tree(h, h2), posts_at(h, ph),
    ensures posts_at(h2, ph),
{ assert forall|p: VPtr<Account>, i: int| h2.contains_key(p) && 0 <= i < h2[p].posts@.len() implies ph.contains_key(#[trigger] h2[p].posts@[i]) by { assert(h.contains_key(p)); assert(h[p].posts@[i] == h2[p].posts@[i]); } }
