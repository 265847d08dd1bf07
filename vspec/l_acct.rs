// ---- theorems about registered names (C05)
/// what registering keeps of every account there was: its place, name, postings; its sub-accounts may become more
pub open spec fn kept(h: Heap, h2: Heap) -> bool {
    forall|q: VPtr<Account>| #[trigger] h.contains_key(q) ==> h2.contains_key(q) && same_acct(h[q], h2[q]) && (forall|k: Seq<char>| #[trigger] kids(h, q).contains_key(k) ==> kids(h2, q).contains_key(k) && kids(h2, q)[k] == kids(h, q)[k])
}
/// the accounts on the path of the name
pub open spec fn on_path(h: Heap, p: VPtr<Account>, s: Seq<char>, q: VPtr<Account>) -> bool
    decreases s.len()
    via on_path_dec
{
    kids(h, p).contains_key(nm_first(s)) && (q == kids(h, p)[nm_first(s)] || (nm_rest(s).len() > 0 && on_path(h, kids(h, p)[nm_first(s)], nm_rest(s), q)))
}
#[via_fn]
proof fn on_path_dec(h: Heap, p: VPtr<Account>, s: Seq<char>, q: VPtr<Account>) { rest_shorter(s); }
/// only accounts of the path are new, and each is empty but for the next one of the path
pub open spec fn only_path(h: Heap, h2: Heap, p: VPtr<Account>, s: Seq<char>) -> bool {
    &&& forall|q: VPtr<Account>| #[trigger] h2.contains_key(q) && !h.contains_key(q) ==> on_path(h2, p, s, q) && h2[q].posts@.len() == 0 && h2[q].fullname@ is None
    &&& forall|q: VPtr<Account>, k: Seq<char>| h.contains_key(q) && #[trigger] kids(h2, q).contains_key(k) && !kids(h, q).contains_key(k) ==> !h.contains_key(kids(h2, q)[k])
}
pub proof fn kid_at(h: Heap, p: VPtr<Account>, k: Seq<char>)
    requires heap_ok(h), h.contains_key(p), kids(h, p).contains_key(k),
    ensures kid_ok(h, p, k),
{ assert(node_ok(h, p)); }
pub proof fn kept_trans(a: Heap, b: Heap, c: Heap)
    requires kept(a, b), kept(b, c),
    ensures kept(a, c),
{
    assert forall|q: VPtr<Account>| #[trigger] a.contains_key(q) implies c.contains_key(q) && same_acct(a[q], c[q]) && (forall|k: Seq<char>| #[trigger] kids(a, q).contains_key(k) ==> kids(c, q).contains_key(k) && kids(c, q)[k] == kids(a, q)[k]) by {
        assert(b.contains_key(q));
        assert forall|k: Seq<char>| #[trigger] kids(a, q).contains_key(k) implies kids(c, q).contains_key(k) && kids(c, q)[k] == kids(a, q)[k] by { assert(kids(b, q).contains_key(k)); }
    }
}
/// a name that resolves keeps resolving to the same account
pub proof fn find_kept(h: Heap, h2: Heap, p: VPtr<Account>, s: Seq<char>)
    requires heap_ok(h), h.contains_key(p), kept(h, h2), a_find(h, p, s) is Some,
    ensures a_find(h2, p, s) == a_find(h, p, s),
    decreases s.len(),
{
    rest_shorter(s); kid_at(h, p, nm_first(s));
    assert(kids(h2, p).contains_key(nm_first(s)));
    if nm_rest(s).len() > 0 { find_kept(h, h2, kids(h, p)[nm_first(s)], nm_rest(s)); }
}
pub proof fn new_is_kept(h: Heap, h1: Heap, p: VPtr<Account>, f: Seq<char>, c: VPtr<Account>)
    requires acct_new(h, h1, p, f, c), h.contains_key(p), !kids(h, p).contains_key(f),
    ensures kept(h, h1),
{
    assert forall|q: VPtr<Account>| #[trigger] h.contains_key(q) implies h1.contains_key(q) && same_acct(h[q], h1[q]) && (forall|k: Seq<char>| #[trigger] kids(h, q).contains_key(k) ==> kids(h1, q).contains_key(k) && kids(h1, q)[k] == kids(h, q)[k]) by {
        if q == p { } else { assert(h1[q] == h[q]); }
    }
}
/// Registering: afterwards the name resolves to the account returned; a name already known creates nothing; what there was stays;
/// what is new lies on the path of the name.
pub proof fn registered(h: Heap, h2: Heap, p: VPtr<Account>, s: Seq<char>, r: VPtr<Account>)
    requires heap_ok(h), h.contains_key(p), a_reg(h, h2, p, s, r),
    ensures heap_ok(h2), h2.contains_key(r), a_find(h2, p, s) == Some(r), a_find(h, p, s) is Some ==> h2 == h && a_find(h, p, s) == Some(r), kept(h, h2), only_path(h, h2, p, s), on_path(h2, p, s, r),
    decreases s.len(),
{
    rest_shorter(s);
    let f = nm_first(s); let t = nm_rest(s);
    if kids(h, p).contains_key(f) {
        kid_at(h, p, f);
        let c = kids(h, p)[f];
        if t.len() > 0 {
            registered(h, h2, c, t, r);
            assert(kids(h2, p).contains_key(f) && kids(h2, p)[f] == c);
        }
    } else {
        let (c, h1) = choose|c: VPtr<Account>, h1: Heap| #[trigger] acct_new(h, h1, p, f, c) && (if t.len() == 0 { h2 == h1 && r == c } else { a_reg(h1, h2, c, t, r) });
        acct_new_ok(h, h1, p, f, c); new_is_kept(h, h1, p, f, c);
        assert(kids(h1, p).contains_key(f) && kids(h1, p)[f] == c);
        if t.len() > 0 {
            registered(h1, h2, c, t, r);
            kept_trans(h, h1, h2);
            assert(kids(h2, p).contains_key(f) && kids(h2, p)[f] == c);
            assert forall|q: VPtr<Account>| #[trigger] h2.contains_key(q) && !h.contains_key(q) implies on_path(h2, p, s, q) && h2[q].posts@.len() == 0 && h2[q].fullname@ is None by {
                if h1.contains_key(q) { assert(q == c); assert(same_acct(h1[c], h2[c])); } else { assert(on_path(h2, c, t, q)); }
            }
            assert forall|q: VPtr<Account>, k: Seq<char>| h.contains_key(q) && #[trigger] kids(h2, q).contains_key(k) && !kids(h, q).contains_key(k) implies !h.contains_key(kids(h2, q)[k]) by {
                assert(h1.contains_key(q));
                if kids(h1, q).contains_key(k) { if q == p { assert(k == f); } else { assert(h1[q] == h[q]); } } else { assert(!h1.contains_key(kids(h2, q)[k])); }
            }
        } else {
            assert forall|q: VPtr<Account>, k: Seq<char>| h.contains_key(q) && #[trigger] kids(h2, q).contains_key(k) && !kids(h, q).contains_key(k) implies !h.contains_key(kids(h2, q)[k]) by {
                if q == p { assert(k == f); } else { assert(h1[q] == h[q]); }
            }
        }
    }
}
/// a name that does not resolve, and does not lie on the path of the registered one, still does not
pub proof fn others_absent(h: Heap, h2: Heap, m: VPtr<Account>, s: Seq<char>, p: VPtr<Account>, t: Seq<char>)
    requires heap_ok(h), heap_ok(h2), h.contains_key(p), kept(h, h2), only_path(h, h2, m, s), a_find(h, p, t) is None, a_find(h2, p, t) is Some,
    ensures !h.contains_key((a_find(h2, p, t))->0), on_path(h2, m, s, (a_find(h2, p, t))->0),
    decreases t.len(),
{
    rest_shorter(t);
    let f = nm_first(t);
    if kids(h, p).contains_key(f) {
        kid_at(h, p, f);
        assert(kids(h2, p)[f] == kids(h, p)[f]);
        if nm_rest(t).len() > 0 { others_absent(h, h2, m, s, kids(h, p)[f], nm_rest(t)); }
    } else {
        kid_at(h2, p, f);
        let c = kids(h2, p)[f];
        assert(!h.contains_key(c));
        if nm_rest(t).len() > 0 { fresh_below(h, h2, c, nm_rest(t)); find_in(h2, c, nm_rest(t)); assert(on_path(h2, m, s, a_find(h2, p, t)->0)); }
    }
}
pub proof fn find_in(h: Heap, p: VPtr<Account>, s: Seq<char>)
    requires heap_ok(h), h.contains_key(p), a_find(h, p, s) is Some,
    ensures h.contains_key(a_find(h, p, s)->0), ord(p) < ord(a_find(h, p, s)->0), h[a_find(h, p, s)->0].parent != nullp::<Account>(),
    decreases s.len(),
{ rest_shorter(s); kid_at(h, p, nm_first(s)); assert(node_ok(h, p)); if nm_rest(s).len() > 0 { find_in(h, kids(h, p)[nm_first(s)], nm_rest(s)); } }
/// below an account that is new there are only new ones
pub proof fn fresh_below(h: Heap, h2: Heap, p: VPtr<Account>, s: Seq<char>)
    requires heap_ok(h), heap_ok(h2), h2.contains_key(p), !h.contains_key(p), kept(h, h2), a_find(h2, p, s) is Some,
    ensures !h.contains_key(a_find(h2, p, s)->0),
    decreases s.len(),
{
    rest_shorter(s); kid_at(h2, p, nm_first(s));
    let c = kids(h2, p)[nm_first(s)];
    assert(node_ok(h2, p));
    if h.contains_key(c) { assert(node_ok(h, c)); assert(h[c].parent == p); assert(false); }
    if nm_rest(s).len() > 0 { fresh_below(h, h2, c, nm_rest(s)); }
}
/// ---- full names
pub open spec fn colon() -> Seq<char> { seq![':'] }
/// acc behind the names of the accounts above p
pub open spec fn above(h: Heap, p: VPtr<Account>, acc: Seq<char>) -> Seq<char>
    decreases ord(p) when heap_ok(h) && h.contains_key(p) via above_dec
{
    if h[p].parent == nullp::<Account>() { acc } else { let q = h[p].parent; above(h, q, if h[q].name@.len() == 0 { acc } else { h[q].name@ + colon() + acc }) }
}
#[via_fn]
proof fn above_dec(h: Heap, p: VPtr<Account>, acc: Seq<char>) { assert(node_ok(h, p)); if h[p].parent != nullp::<Account>() { kid_at(h, h[p].parent, h[p].name@); } }
/// the full name: the master account has none
pub open spec fn full(h: Heap, p: VPtr<Account>) -> Seq<char> { if h[p].parent == nullp::<Account>() { Seq::empty() } else { above(h, p, h[p].name@) } }
/// no part of the name is empty
pub open spec fn parts_ok(s: Seq<char>) -> bool
    decreases s.len()
    via parts_ok_dec
{ nm_first(s).len() > 0 && (nm_first(s) == s || (nm_rest(s).len() > 0 && parts_ok(nm_rest(s)))) }
#[via_fn]
proof fn parts_ok_dec(s: Seq<char>) { rest_shorter(s); }
pub proof fn name_split(s: Seq<char>)
    ensures nm_first(s) != s ==> s == nm_first(s) + colon() + nm_rest(s), nm_first(s) == s ==> nm_rest(s).len() == 0,
{
    first_idx_props(s, p_is(':'));
    let k = first_idx(s, p_is(':'));
    if k < s.len() { assert(p_is(':')(s[k])); assert(s =~= nm_first(s) + colon() + nm_rest(s)); assert(nm_first(s).len() != s.len()); }
    else { assert(nm_first(s) =~= s); }
}
/// The account under a name carries that name in full; its parent is the one under the name without the last part.
pub proof fn full_name(h: Heap, p: VPtr<Account>, s: Seq<char>)
    requires heap_ok(h), h.contains_key(p), a_find(h, p, s) is Some, parts_ok(s),
    ensures ({ let c = a_find(h, p, s)->0; above(h, c, h[c].name@) == above(h, p, if h[p].name@.len() == 0 { s } else { h[p].name@ + colon() + s }) }),
    decreases s.len(),
{
    rest_shorter(s); name_split(s);
    let f = nm_first(s); kid_at(h, p, f);
    let c1 = kids(h, p)[f];
    assert(node_ok(h, c1));
    if nm_rest(s).len() > 0 {
        full_name(h, c1, nm_rest(s));
        assert(s =~= f + colon() + nm_rest(s));
    }
}
pub proof fn full_name_master(h: Heap, m: VPtr<Account>, s: Seq<char>)
    requires heap_ok(h), h.contains_key(m), h[m].parent == nullp::<Account>(), h[m].name@.len() == 0, a_find(h, m, s) is Some, parts_ok(s),
    ensures full(h, a_find(h, m, s)->0) == s,
{ full_name(h, m, s); find_in(h, m, s); }
/// t with one more part behind it
pub proof fn parent_name(h: Heap, p: VPtr<Account>, t: Seq<char>, l: Seq<char>)
    requires heap_ok(h), h.contains_key(p), parts_ok(t), l.len() > 0, !l.contains(':'), a_find(h, p, t + colon() + l) is Some,
    ensures a_find(h, p, t) == Some(h[a_find(h, p, t + colon() + l)->0].parent), h[a_find(h, p, t + colon() + l)->0].name@ == l,
    decreases t.len(),
{
    let s = t + colon() + l;
    rest_shorter(s); rest_shorter(t); name_split(t); first_idx_props(t, p_is(':'));
    let k = first_idx(t, p_is(':'));
    if k < t.len() {
        assert(p_is(':')(t[k])); assert forall|j: int| 0 <= j < k implies !p_is(':')(#[trigger] s[j]) by { assert(s[j] == t[j]); }
        first_idx_is(s, p_is(':'), k);
        assert(nm_first(s) =~= nm_first(t)); assert(nm_rest(s) =~= nm_rest(t) + colon() + l);
        assert(nm_first(t).len() != t.len());
        kid_at(h, p, nm_first(t));
        parent_name(h, kids(h, p)[nm_first(t)], nm_rest(t), l);
    } else {
        assert forall|j: int| 0 <= j < t.len() implies !p_is(':')(#[trigger] s[j]) by { assert(s[j] == t[j]); }
        first_idx_is(s, p_is(':'), t.len() as int);
        assert(nm_first(s) =~= t); assert(nm_first(t) =~= t); assert(nm_rest(s) =~= l);
        kid_at(h, p, t); nm_whole(l);
        let c = kids(h, p)[t];
        assert(a_find(h, c, l) is Some);
        kid_at(h, c, l);
    }
}
/// full names stay
pub proof fn above_kept(h: Heap, h2: Heap, p: VPtr<Account>, acc: Seq<char>)
    requires heap_ok(h), heap_ok(h2), h.contains_key(p), forall|q: VPtr<Account>| #[trigger] h.contains_key(q) ==> h2.contains_key(q) && h2[q].parent == h[q].parent && h2[q].name@ == h[q].name@,
    ensures above(h2, p, acc) == above(h, p, acc),
    decreases ord(p),
{
    assert(node_ok(h, p));
    let q = h[p].parent;
    if q != nullp::<Account>() { kid_at(h, q, h[p].name@); assert(h.contains_key(q)); above_kept(h, h2, q, if h[q].name@.len() == 0 { acc } else { h[q].name@ + colon() + acc }); }
}
/// the names that were worked out already are right
pub open spec fn names_ok(h: Heap) -> bool { forall|p: VPtr<Account>| #[trigger] h.contains_key(p) && h[p].fullname@ is Some ==> h[p].fullname@->0 == full(h, p) }
pub proof fn names_kept(h: Heap, h2: Heap)
    requires heap_ok(h), heap_ok(h2), kept(h, h2), names_ok(h), forall|q: VPtr<Account>| #[trigger] h2.contains_key(q) && !h.contains_key(q) ==> h2[q].fullname@ is None,
    ensures names_ok(h2),
{
    assert forall|p: VPtr<Account>| #[trigger] h2.contains_key(p) && h2[p].fullname@ is Some implies h2[p].fullname@->0 == full(h2, p) by {
        if h.contains_key(p) { above_kept(h, h2, p, h[p].name@); assert(same_acct(h[p], h2[p])); }
    }
}
