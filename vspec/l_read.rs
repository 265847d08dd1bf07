// ---- lemmas: what stays as the journal grows
pub proof fn kept_grew(h: Heap, h2: Heap) requires kept(h, h2) ensures grew(h, h2)
{ assert forall|q: VPtr<Account>| #[trigger] h.contains_key(q) implies h2.contains_key(q) && h2[q].parent == h[q].parent && h2[q].name == h[q].name && (forall|k: Seq<char>| #[trigger] kids(h, q).contains_key(k) ==> kids(h2, q).contains_key(k) && kids(h2, q)[k] == kids(h, q)[k]) by { assert(same_acct(h[q], h2[q])); } }
pub proof fn entered_grew(h: Heap, h2: Heap, s: Seq<Post>) requires entered(h, h2, s) ensures grew(h, h2)
{ assert forall|q: VPtr<Account>| #[trigger] h.contains_key(q) implies h2.contains_key(q) && h2[q].parent == h[q].parent && h2[q].name == h[q].name && (forall|k: Seq<char>| #[trigger] kids(h, q).contains_key(k) ==> kids(h2, q).contains_key(k) && kids(h2, q)[k] == kids(h, q)[k]) by { assert(h2.contains_key(q)); } }
pub proof fn entered_ok(h: Heap, h2: Heap, s: Seq<Post>, m: VPtr<Account>)
    requires entered(h, h2, s), one_root(h, m), names_ok(h),
    ensures one_root(h2, m), names_ok(h2),
{
    assert forall|p: VPtr<Account>| #[trigger] h2.contains_key(p) implies node_ok(h2, p) by {
        assert(h.contains_key(p)); assert(node_ok(h, p));
        assert forall|k: Seq<char>| #[trigger] kids(h2, p).contains_key(k) implies kid_ok(h2, p, k) by { assert(kids(h, p).contains_key(k)); assert(kid_ok(h, p, k)); assert(h2.contains_key(kids(h, p)[k])); }
        if h[p].parent != nullp::<Account>() { assert(h2.contains_key(h[p].parent)); }
    }
    assert(h2.contains_key(m));
    assert forall|q: VPtr<Account>| #[trigger] h2.contains_key(q) && h2[q].parent == nullp::<Account>() implies q == m by { assert(h.contains_key(q)); }
    assert forall|q: VPtr<Account>| #[trigger] h.contains_key(q) implies h2.contains_key(q) && h2[q].parent == h[q].parent && h2[q].name@ == h[q].name@ by { assert(h2.contains_key(q)); }
    assert forall|p: VPtr<Account>| #[trigger] h2.contains_key(p) && h2[p].fullname@ is Some implies h2[p].fullname@->0 == full(h2, p) by { assert(h.contains_key(p)); above_kept(h, h2, p, h[p].name@); }
}
pub proof fn grew_trans(a: Heap, b: Heap, c: Heap)
    requires grew(a, b), grew(b, c),
    ensures grew(a, c),
{
    assert forall|q: VPtr<Account>| #[trigger] a.contains_key(q) implies c.contains_key(q) && c[q].parent == a[q].parent && c[q].name == a[q].name && (forall|k: Seq<char>| #[trigger] kids(a, q).contains_key(k) ==> kids(c, q).contains_key(k) && kids(c, q)[k] == kids(a, q)[k]) by {
        assert(b.contains_key(q));
        assert forall|k: Seq<char>| #[trigger] kids(a, q).contains_key(k) implies kids(c, q).contains_key(k) && kids(c, q)[k] == kids(a, q)[k] by { assert(kids(b, q).contains_key(k)); }
    }
}
pub proof fn find_grew(h: Heap, h2: Heap, p: VPtr<Account>, s: Seq<char>)
    requires heap_ok(h), h.contains_key(p), grew(h, h2), a_find(h, p, s) is Some,
    ensures a_find(h2, p, s) == a_find(h, p, s),
    decreases s.len(),
{
    rest_shorter(s); kid_at(h, p, nm_first(s));
    assert(kids(h2, p).contains_key(nm_first(s)));
    if nm_rest(s).len() > 0 { find_grew(h, h2, kids(h, p)[nm_first(s)], nm_rest(s)); }
}
pub open spec fn place_ok(h: Heap, h2: Heap, m: VPtr<Account>, a: CommodityPool, b: CommodityPool) -> bool { heap_ok(h) && h.contains_key(m) && grew(h, h2) && pool_ext(a, b) }
pub proof fn posts_of_kept(s: Seq<Post>, f: Seq<Post>, w: Seq<PW>, h: Heap, h2: Heap, m: VPtr<Account>, a: CommodityPool, b: CommodityPool)
    requires posts_of(s, w, h, m, a), place_ok(h, h2, m, a, b), f.len() == s.len(),
        forall|k: int| 0 <= k < s.len() ==> (#[trigger] f[k]).account == s[k].account && f[k].amount == s[k].amount && f[k].cost == s[k].cost && otext(f[k].note) == otext(s[k].note),
    ensures posts_of(f, w, h2, m, b),
{
    assert forall|k: int| 0 <= k < f.len() implies post_is(#[trigger] f[k], w[k].t, h2, m, b) && otext(f[k].note) == w[k].note by {
        assert(post_is(s[k], w[k].t, h, m, a));
        find_grew(h, h2, m, w[k].t.account);
    }
}
pub proof fn completed_kept(s: Seq<Post>, f: Seq<Post>, g: Seq<Post>)
    requires completed(s, f), pskept(f, g),
    ensures completed(s, g),
{
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] g[i]).account == s[i].account && otext(g[i].note) == otext(s[i].note) && (s[i].amount is Some ==> oav(g[i].amount) == oav(s[i].amount)) by { assert(pkept(f[i], g[i])); }
    if !fin_open(s) {
        assert forall|k: int| null_at(s, k) implies oav((#[trigger] g[k]).amount) == Some((0real - bal_sum(vals(s), vals(s)[0].commodity), vals(s)[0].commodity)) && g[k].cost is None by { assert(pkept(f[k], g[k])); assert(oav(f[k].amount) == Some((0real - bal_sum(vals(s), vals(s)[0].commodity), vals(s)[0].commodity))); }
        assert forall|b: VPtr<Commodity>| #[trigger] implies_cost(s, b) implies exists|r: real| costs_implied(s, g, first_comm(s), b, r) by {
            let r = choose|r: real| costs_implied(s, f, first_comm(s), b, r);
            assert(costs_implied(s, f, first_comm(s), b, r));
            assert forall|i: int| 0 <= i < s.len() implies (if ((#[trigger] s[i]).amount->0).commodity == first_comm(s) { oav(g[i].cost) == Some((r * qv((s[i].amount->0).quantity), b)) } else { g[i].cost is None }) by { assert(pkept(f[i], g[i])); }
            assert(costs_implied(s, g, first_comm(s), b, r));
        }
        if forall|b: VPtr<Commodity>| !#[trigger] implies_cost(s, b) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] g[i]).cost == s[i].cost by { assert(pkept(f[i], g[i])); assert(f[i].cost == s[i].cost); } }
    }
}
pub proof fn x_is_kept(x: Xact, y: Xact, w: XW, h: Heap, h2: Heap, m: VPtr<Account>, a: CommodityPool, b: CommodityPool)
    requires x_is(x, w, h, m, a), xkept(x, y), place_ok(h, h2, m, a, b),
    ensures x_is(y, w, h2, m, b),
{
    let s = choose|s: Seq<Post>| #[trigger] posts_of(s, w.posts, h, m, a) && completed(s, x.posts@);
    posts_of_kept(s, s, w.posts, h, h2, m, a, b);
    completed_kept(s, x.posts@, y.posts@);
}
pub proof fn xskept_trans(a: Seq<Xact>, b: Seq<Xact>, c: Seq<Xact>)
    requires xskept(a, b), xskept(b, c),
    ensures xskept(a, c),
{ assert forall|i: int| 0 <= i < a.len() implies xkept(a[i], #[trigger] c[i]) by { assert(xkept(a[i], b[i])); assert(xkept(b[i], c[i])); assert forall|k: int| 0 <= k < a[i].posts@.len() implies pkept(a[i].posts@[k], #[trigger] c[i].posts@[k]) by { assert(pkept(a[i].posts@[k], b[i].posts@[k])); } } }
pub proof fn gains_none(j: Journal, h: Heap) ensures gains(j, h, j, h, Seq::<XW>::empty()) { }
/// Theorem (C14): what was read stays, and what is read next follows it
pub proof fn gains_trans(j: Journal, h: Heap, j1: Journal, h1: Heap, j2: Journal, h2: Heap, v: Seq<XW>, w: Seq<XW>)
    requires gains(j, h, j1, h1, v), gains(j1, h1, j2, h2, w), one_root(h1, j.master),
    ensures gains(j, h, j2, h2, v + w),
{
    grew_trans(h, h1, h2); pool_ext_trans(j.commodity_pool, j1.commodity_pool, j2.commodity_pool); xskept_trans(j.xacts@, j1.xacts@, j2.xacts@);
    let n = j.xacts@.len();
    assert forall|i: int| n <= i < j2.xacts@.len() implies x_is(#[trigger] j2.xacts@[i], (v + w)[i - n], h2, j.master, j2.commodity_pool) by {
        if i < j1.xacts@.len() { assert(x_is(j1.xacts@[i], v[i - n], h1, j.master, j1.commodity_pool)); assert(xkept(j1.xacts@[i], j2.xacts@[i])); x_is_kept(j1.xacts@[i], j2.xacts@[i], v[i - n], h1, h2, j.master, j1.commodity_pool, j2.commodity_pool); }
        else { assert((v + w)[i - n] == w[i - j1.xacts@.len()]); }
    }
}
// ---- links
pub proof fn plinks_kept(s: Seq<Post>, t: Seq<Post>, a: VPtr<Account>)
    requires pskept(s, t),
    ensures plinks(s, a) == plinks(t, a),
    decreases s.len(),
{
    if s.len() > 0 { assert(pkept(s[s.len() - 1], t[s.len() - 1])); assert forall|k: int| 0 <= k < s.drop_last().len() implies pkept(s.drop_last()[k], #[trigger] t.drop_last()[k]) by { assert(pkept(s[k], t[k])); } plinks_kept(s.drop_last(), t.drop_last(), a); }
}
pub proof fn links_kept(s: Seq<Xact>, t: Seq<Xact>, a: VPtr<Account>)
    requires xskept(s, t), s.len() == t.len(),
    ensures links(s, a) == links(t, a),
    decreases s.len(),
{
    if s.len() > 0 { assert(xkept(s[s.len() - 1], t[s.len() - 1])); plinks_kept(s.last().posts@, t.last().posts@, a); assert forall|k: int| 0 <= k < s.drop_last().len() implies xkept(s.drop_last()[k], #[trigger] t.drop_last()[k]) by { assert(xkept(s[k], t[k])); } links_kept(s.drop_last(), t.drop_last(), a); }
}
pub proof fn plinks_none(h: Heap, s: Seq<Post>, a: VPtr<Account>) requires in_heap(h, s), !h.contains_key(a) ensures plinks(s, a).len() == 0 decreases s.len()
{ if s.len() > 0 { assert(h.contains_key(s[s.len() - 1].account)); assert forall|k: int| 0 <= k < s.drop_last().len() implies h.contains_key((#[trigger] s.drop_last()[k]).account) by { assert(s.drop_last()[k] == s[k]); } plinks_none(h, s.drop_last(), a); } }
pub proof fn links_none(h: Heap, s: Seq<Xact>, a: VPtr<Account>) requires homed(h, s), !h.contains_key(a) ensures links(s, a).len() == 0 decreases s.len()
{ if s.len() > 0 { assert(in_heap(h, s[s.len() - 1].posts@)); plinks_none(h, s.last().posts@, a); assert forall|k: int| 0 <= k < s.drop_last().len() implies in_heap(h, (#[trigger] s.drop_last()[k]).posts@) by { assert(s.drop_last()[k] == s[k]); } links_none(h, s.drop_last(), a); } }
/// registering an account changes no entries
pub proof fn entries_reg(h: Heap, h2: Heap, s: Seq<Xact>, m: VPtr<Account>, n: Seq<char>)
    requires entries(h, s), homed(h, s), kept(h, h2), only_path(h, h2, m, n),
    ensures entries(h2, s), homed(h2, s),
{
    assert forall|a: VPtr<Account>| #[trigger] h2.contains_key(a) implies h2[a].posts@ == links(s, a) by {
        if h.contains_key(a) { assert(same_acct(h[a], h2[a])); } else { links_none(h, s, a); assert(h2[a].posts@ =~= links(s, a)); }
    }
    assert forall|i: int| 0 <= i < s.len() implies in_heap(h2, (#[trigger] s[i]).posts@) by { assert(in_heap(h, s[i].posts@)); assert forall|k: int| 0 <= k < s[i].posts@.len() implies h2.contains_key((#[trigger] s[i].posts@[k]).account) by { assert(h.contains_key(s[i].posts@[k].account)); } }
}
pub proof fn entries_kept(h: Heap, s: Seq<Xact>, t: Seq<Xact>)
    requires entries(h, s), xskept(s, t), s.len() == t.len(),
    ensures entries(h, t),
{ assert forall|a: VPtr<Account>| #[trigger] h.contains_key(a) implies h[a].posts@ == links(t, a) by { links_kept(s, t, a); } }
pub proof fn homed_kept(h: Heap, s: Seq<Xact>, t: Seq<Xact>)
    requires homed(h, s), xskept(s, t),
    ensures homed(h, t.take(s.len() as int)),
{ assert forall|i: int| 0 <= i < s.len() implies in_heap(h, (#[trigger] t.take(s.len() as int)[i]).posts@) by { assert(xkept(s[i], t[i])); assert(in_heap(h, s[i].posts@)); assert forall|k: int| 0 <= k < t[i].posts@.len() implies h.contains_key((#[trigger] t[i].posts@[k]).account) by { assert(pkept(s[i].posts@[k], t[i].posts@[k])); assert(h.contains_key(s[i].posts@[k].account)); } } }
pub proof fn okc_ext(a: CommodityPool, b: CommodityPool)
    requires pool_ext(a, b),
    ensures forall|p: VPtr<Commodity>| #[trigger] okc(a, p) ==> okc(b, p),
{
    assert forall|p: VPtr<Commodity>| #[trigger] okc(a, p) implies okc(b, p) by {
        if p != nullp::<Commodity>() { assert(in_pool(a, p)); let s = choose|s: Seq<char>| #[trigger] a.commodities@.contains_key(s) && p == caddr(a.commodities@[s]); assert(b.commodities@.contains_key(s)); assert(in_pool(b, p)); }
    }
}
pub proof fn paid_ext(a: CommodityPool, b: CommodityPool, s: Seq<Xact>)
    requires paid(a, s), pool_ext(a, b),
    ensures paid(b, s),
{
    okc_ext(a, b);
    assert forall|i: int| 0 <= i < s.len() implies posts_ok(b, (#[trigger] s[i]).posts@) by { assert(posts_ok(a, s[i].posts@)); assert forall|k: int| 0 <= k < s[i].posts@.len() implies post_ok(b, #[trigger] s[i].posts@[k]) by { let p = s[i].posts@[k]; assert(post_ok(a, p)); if p.amount is Some { assert(okc(a, (p.amount->0).commodity)); } if p.cost is Some { assert(okc(a, (p.cost->0).commodity)); } } }
}
pub proof fn paid_kept(a: CommodityPool, s: Seq<Xact>, t: Seq<Xact>)
    requires paid(a, s), xskept(s, t),
    ensures paid(a, t.take(s.len() as int)),
{ assert forall|i: int| 0 <= i < s.len() implies posts_ok(a, (#[trigger] t.take(s.len() as int)[i]).posts@) by { assert(xkept(s[i], t[i])); assert(posts_ok(a, s[i].posts@)); assert forall|k: int| 0 <= k < t[i].posts@.len() implies post_ok(a, #[trigger] t[i].posts@[k]) by { assert(pkept(s[i].posts@[k], t[i].posts@[k])); assert(post_ok(a, s[i].posts@[k])); } } }
// ---- one step of the reader
/// the note n has been added to x
pub open spec fn xnoted(x: Xact, y: Xact, n: Seq<char>) -> bool {
    y.date == x.date && y.aux_date == x.aux_date && y.payee == x.payee && y.journal == x.journal && y.v_id == x.v_id && y.posts@.len() == x.posts@.len()
    && (if n.len() == 0 { y.note == x.note && y.posts@ == x.posts@ }
        else if x.posts@.len() == 0 { otext(y.note) == Some(n) && y.posts@ == x.posts@ }
        else { y.note == x.note && (forall|k: int| 0 <= k < x.posts@.len() - 1 ==> #[trigger] y.posts@[k] == x.posts@[k])
            && ({ let a = x.posts@.last(); let b = y.posts@.last(); b.account == a.account && b.amount == a.amount && b.cost == a.cost && b.xact_ptr == a.xact_ptr && b.v_id == a.v_id && otext(b.note) == Some(n) }) })
}
pub open spec fn same_frame(j: Journal, k: Journal) -> bool { k.master == j.master && k.commodity_pool == j.commodity_pool }
/// a new transaction without postings
pub proof fn added_ok(j: Journal, k: Journal, h: Heap)
    requires jinv(j, h), same_frame(j, k), distinct(k.xacts@), linked(k.xacts@), k.xacts@.len() == j.xacts@.len() + 1, xskept(j.xacts@, k.xacts@), k.xacts@.last().posts@.len() == 0,
    ensures jok(k, h, j.xacts@.len() as int),
{
    let n = j.xacts@.len() as int;
    homed_kept(h, j.xacts@, k.xacts@); paid_kept(k.commodity_pool, j.xacts@, k.xacts@);
    assert forall|i: int| 0 <= i < k.xacts@.len() implies in_heap(h, (#[trigger] k.xacts@[i]).posts@) by { if i < n { assert(in_heap(h, k.xacts@.take(n)[i].posts@)); } }
    assert forall|i: int| 0 <= i < k.xacts@.len() implies posts_ok(k.commodity_pool, (#[trigger] k.xacts@[i]).posts@) by { if i < n { assert(posts_ok(k.commodity_pool, k.xacts@.take(n)[i].posts@)); } }
    assert(j.xacts@.take(n) =~= j.xacts@);
    assert forall|i: int| 0 <= i < n implies xkept(j.xacts@[i], #[trigger] k.xacts@.take(n)[i]) by { assert(xkept(j.xacts@[i], k.xacts@[i])); }
    entries_kept(h, j.xacts@, k.xacts@.take(n));
}
proof fn only_at_addr(a: Seq<Xact>, b: Seq<Xact>, n: int)
    requires distinct(a), only_at(a, b, n), b[n].v_id == a[n].v_id,
    ensures distinct(b), b.take(n) =~= a.take(n),
{
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).s_addr() != (#[trigger] b[j]).s_addr() by { assert(a[i].s_addr() != a[j].s_addr()); }
    assert forall|i: int| 0 <= i < n implies b.take(n)[i] == a.take(n)[i] by { assert(b[i] == a[i]); }
}
pub proof fn note_step(j: Journal, k: Journal, h: Heap, n: int, w: XW, t: Seq<char>)
    requires jok(j, h, n), same_frame(j, k), n + 1 == j.xacts@.len(), x_so_far(j.xacts@[n], w, h, j.master, j.commodity_pool), only_at(j.xacts@, k.xacts@, n), xnoted(j.xacts@[n], k.xacts@[n], t),
    ensures jok(k, h, n), x_so_far(k.xacts@[n], noted(w, t), h, k.master, k.commodity_pool), k.xacts@.take(n) == j.xacts@.take(n), k.xacts@[n].v_id == j.xacts@[n].v_id,
{
    let x = j.xacts@[n]; let y = k.xacts@[n]; let m = j.master; let pool = j.commodity_pool;
    only_at_addr(j.xacts@, k.xacts@, n);
    assert forall|i: int| 0 <= i < y.posts@.len() implies (#[trigger] y.posts@[i]).account == x.posts@[i].account && y.posts@[i].amount == x.posts@[i].amount && y.posts@[i].cost == x.posts@[i].cost && y.posts@[i].xact_ptr == x.posts@[i].xact_ptr && y.posts@[i].v_id == x.posts@[i].v_id by { if i == y.posts@.len() - 1 { assert(y.posts@[i] == y.posts@.last()); } }
    assert(in_heap(h, x.posts@)); assert(posts_ok(pool, x.posts@)); assert(all_to(x.posts@, xaddr(x)));
    assert(in_heap(h, y.posts@)) by { assert forall|i: int| 0 <= i < y.posts@.len() implies h.contains_key((#[trigger] y.posts@[i]).account) by { assert(h.contains_key(x.posts@[i].account)); } }
    assert(posts_ok(pool, y.posts@)) by { assert forall|i: int| 0 <= i < y.posts@.len() implies post_ok(pool, #[trigger] y.posts@[i]) by { assert(post_ok(pool, x.posts@[i])); } }
    assert(all_to(y.posts@, xaddr(y))) by { assert forall|i: int| 0 <= i < y.posts@.len() implies (#[trigger] y.posts@[i]).xact_ptr == xaddr(y) by { assert(x.posts@[i].xact_ptr == xaddr(x)); } }
    jok_at(j, k, h, h, n, n);
    let w2 = noted(w, t);
    assert forall|i: int| 0 <= i < y.posts@.len() implies post_is(#[trigger] y.posts@[i], w2.posts[i].t, h, m, pool) && otext(y.posts@[i].note) == w2.posts[i].note by { assert(post_is(x.posts@[i], w.posts[i].t, h, m, pool)); assert(otext(x.posts@[i].note) == w.posts[i].note); if i == y.posts@.len() - 1 { assert(y.posts@[i] == y.posts@.last()); } }
}
pub open spec fn jparts(j: Journal, h: Heap) -> bool { one_root(h, j.master) && names_ok(h) && pool_wf(j.commodity_pool) && distinct(j.xacts@) && linked(j.xacts@) && homed(h, j.xacts@) && paid(j.commodity_pool, j.xacts@) }
/// only the transaction at n has changed, and its own links are right
proof fn jok_at(j: Journal, k: Journal, h: Heap, h2: Heap, n: int, e: int)
    requires jparts(j, h), k.master == j.master, one_root(h2, k.master), names_ok(h2), pool_wf(k.commodity_pool), pool_ext(j.commodity_pool, k.commodity_pool), only_at(j.xacts@, k.xacts@, n), k.xacts@[n].v_id == j.xacts@[n].v_id,
        in_heap(h2, k.xacts@[n].posts@), posts_ok(k.commodity_pool, k.xacts@[n].posts@), all_to(k.xacts@[n].posts@, xaddr(k.xacts@[n])), entries(h2, k.xacts@.take(e)), grew(h, h2),
    ensures jok(k, h2, e),
{
    only_at_addr(j.xacts@, k.xacts@, n); paid_ext(j.commodity_pool, k.commodity_pool, j.xacts@);
    assert forall|i: int| 0 <= i < k.xacts@.len() implies in_heap(h2, (#[trigger] k.xacts@[i]).posts@) by { if i != n { assert(in_heap(h, j.xacts@[i].posts@)); assert forall|q: int| 0 <= q < k.xacts@[i].posts@.len() implies h2.contains_key((#[trigger] k.xacts@[i].posts@[q]).account) by { assert(h.contains_key(j.xacts@[i].posts@[q].account)); } } }
    assert forall|i: int| 0 <= i < k.xacts@.len() implies posts_ok(k.commodity_pool, (#[trigger] k.xacts@[i]).posts@) by { if i != n { assert(posts_ok(k.commodity_pool, j.xacts@[i].posts@)); } }
    assert forall|i: int| 0 <= i < k.xacts@.len() implies all_to((#[trigger] k.xacts@[i]).posts@, xaddr(k.xacts@[i])) by { if i != n { assert(all_to(j.xacts@[i].posts@, xaddr(j.xacts@[i]))); } }
}
pub proof fn post_is_ok(p: Post, t: PT, h: Heap, m: VPtr<Account>, pool: CommodityPool) requires post_is(p, t, h, m, pool), pool_wf(pool) ensures post_ok(pool, p)
{
    if p.amount is Some { if t.symbol.len() > 0 { assert(pool.commodities@.contains_key(t.symbol)); assert(in_pool(pool, (p.amount->0).commodity)); } assert(okc(pool, (p.amount->0).commodity)); }
    if p.cost is Some { let y = sym_ptr(pool, t.cost_symbol); if t.cost_symbol.len() > 0 { assert(pool.commodities@.contains_key(t.cost_symbol)); assert(in_pool(pool, y)); } assert(okc(pool, y)); assert(okc(pool, (p.cost->0).commodity)); }
}
pub proof fn post_step(j: Journal, k: Journal, h: Heap, h2: Heap, n: int, w: XW, t: PT)
    requires jok(j, h, n), k.master == j.master, n + 1 == j.xacts@.len(), x_so_far(j.xacts@[n], w, h, j.master, j.commodity_pool), only_at(j.xacts@, k.xacts@, n), one_more(j.xacts@[n], k.xacts@[n]),
        post_pool(j.commodity_pool, k.commodity_pool, t), one_root(h2, j.master), names_ok(h2),
        ({ let x = k.xacts@[n]; let p = x.posts@.last(); p.xact_ptr == xaddr(x) && p.note is None && a_reg(h, h2, j.master, t.account, p.account) && post_is(p, t, h2, j.master, k.commodity_pool) }),
    ensures jok(k, h2, n), x_so_far(k.xacts@[n], XW { posts: w.posts.push(PW { t, note: None }), ..w }, h2, k.master, k.commodity_pool), k.xacts@.take(n) == j.xacts@.take(n), k.xacts@[n].v_id == j.xacts@[n].v_id, grew(h, h2), pool_ext(j.commodity_pool, k.commodity_pool),
{
    let x = j.xacts@[n]; let y = k.xacts@[n]; let m = j.master; let pool = k.commodity_pool; let c = x.posts@.len() as int;
    only_at_addr(j.xacts@, k.xacts@, n);
    let acc = y.posts@.last().account;
    registered(h, h2, m, t.account, acc); kept_grew(h, h2);
    assert(homed(h, j.xacts@.take(n))) by { assert forall|i: int| 0 <= i < n implies in_heap(h, (#[trigger] j.xacts@.take(n)[i]).posts@) by { assert(in_heap(h, j.xacts@[i].posts@)); } }
    entries_reg(h, h2, j.xacts@.take(n), m, t.account);
    assert(in_heap(h, x.posts@)); assert(posts_ok(j.commodity_pool, x.posts@)); assert(all_to(x.posts@, xaddr(x)));
    okc_ext(j.commodity_pool, pool);
    assert forall|i: int| 0 <= i < c implies (#[trigger] y.posts@[i]).account == x.posts@[i].account && y.posts@[i].amount == x.posts@[i].amount && y.posts@[i].cost == x.posts@[i].cost && y.posts@[i].note == x.posts@[i].note && y.posts@[i].xact_ptr == x.posts@[i].xact_ptr by { }
    assert(in_heap(h2, y.posts@)) by { assert forall|i: int| 0 <= i < y.posts@.len() implies h2.contains_key((#[trigger] y.posts@[i]).account) by { if i < c { assert(h.contains_key(x.posts@[i].account)); } } }
    post_is_ok(y.posts@.last(), t, h2, m, pool);
    assert(posts_ok(pool, y.posts@)) by { assert forall|i: int| 0 <= i < y.posts@.len() implies post_ok(pool, #[trigger] y.posts@[i]) by { if i < c { assert(post_ok(j.commodity_pool, x.posts@[i])); let p = x.posts@[i]; if p.amount is Some { assert(okc(j.commodity_pool, (p.amount->0).commodity)); } if p.cost is Some { assert(okc(j.commodity_pool, (p.cost->0).commodity)); } } } }
    assert(all_to(y.posts@, xaddr(y))) by { assert forall|i: int| 0 <= i < y.posts@.len() implies (#[trigger] y.posts@[i]).xact_ptr == xaddr(y) by { if i < c { assert(x.posts@[i].xact_ptr == xaddr(x)); } } }
    jok_at(j, k, h, h2, n, n);
    posts_of_kept(x.posts@, y.posts@.take(c), w.posts, h, h2, m, j.commodity_pool, pool);
    let w2 = w.posts.push(PW { t, note: None });
    assert forall|i: int| 0 <= i < y.posts@.len() implies post_is(#[trigger] y.posts@[i], w2[i].t, h2, m, pool) && otext(y.posts@[i].note) == w2[i].note by { if i < c { assert(post_is(y.posts@.take(c)[i], w.posts[i].t, h2, m, pool)); assert(otext(y.posts@.take(c)[i].note) == w.posts[i].note); } else { assert(y.posts@[i] == y.posts@.last()); } }
}
/// the postings of the last transaction are entered
pub proof fn enter_step(j: Journal, h: Heap, h2: Heap, n: int, w: XW)
    requires 0 <= n, jok(j, h, n), n + 1 == j.xacts@.len(), entered(h, h2, j.xacts@[n].posts@), x_so_far(j.xacts@[n], w, h, j.master, j.commodity_pool),
    ensures jinv(j, h2), grew(h, h2), x_so_far(j.xacts@[n], w, h2, j.master, j.commodity_pool),
{
    let s = j.xacts@; let x = s[n];
    entered_grew(h, h2, x.posts@); entered_ok(h, h2, x.posts@, j.master);
    assert(s.take(n + 1) =~= s); assert(s.drop_last() =~= s.take(n));
    assert forall|a: VPtr<Account>| #[trigger] h2.contains_key(a) implies h2[a].posts@ == links(s, a) by { assert(h.contains_key(a)); assert(h[a].posts@ == links(s.take(n), a)); }
    assert(pool_ext(j.commodity_pool, j.commodity_pool));
    assert(in_heap(h, x.posts@)); assert(posts_ok(j.commodity_pool, x.posts@)); assert(all_to(x.posts@, xaddr(x)));
    assert(in_heap(h2, x.posts@)) by { assert forall|i: int| 0 <= i < x.posts@.len() implies h2.contains_key((#[trigger] x.posts@[i]).account) by { assert(h.contains_key(x.posts@[i].account)); } }
    jok_at(j, j, h, h2, n, n + 1);
    posts_of_kept(x.posts@, x.posts@, w.posts, h, h2, j.master, j.commodity_pool, j.commodity_pool);
}
pub proof fn fin_step(j: Journal, k: Journal, h: Heap, n: int, w: XW)
    requires jinv(j, h), n + 1 == j.xacts@.len(), k.master == j.master, pool_wf(k.commodity_pool), same_but_prices(j.commodity_pool, k.commodity_pool), only_at(j.xacts@, k.xacts@, n), x_so_far(j.xacts@[n], w, h, j.master, j.commodity_pool),
        fin_frame(j.xacts@[n], k.xacts@[n]), posts_ok(k.commodity_pool, k.xacts@[n].posts@), !fin_open(j.xacts@[n].posts@) ==> fin_done(j.xacts@[n].posts@, k.xacts@[n].posts@),
    ensures jinv(k, h), x_is(k.xacts@[n], w, h, k.master, k.commodity_pool), pool_ext(j.commodity_pool, k.commodity_pool), k.xacts@.take(n) == j.xacts@.take(n),
{
    let x = j.xacts@[n]; let y = k.xacts@[n];
    only_at_addr(j.xacts@, k.xacts@, n);
    assert(in_heap(h, x.posts@)); assert(all_to(x.posts@, xaddr(x)));
    assert(in_heap(h, y.posts@)) by { assert forall|i: int| 0 <= i < y.posts@.len() implies h.contains_key((#[trigger] y.posts@[i]).account) by { assert(same_post(x.posts@[i], y.posts@[i])); assert(h.contains_key(x.posts@[i].account)); } }
    assert(all_to(y.posts@, xaddr(y))) by { assert forall|i: int| 0 <= i < y.posts@.len() implies (#[trigger] y.posts@[i]).xact_ptr == xaddr(y) by { assert(same_post(x.posts@[i], y.posts@[i])); assert(x.posts@[i].xact_ptr == xaddr(x)); } }
    let s = j.xacts@; let t = k.xacts@;
    assert(s.take(n + 1) =~= s); assert(t.take(n + 1) =~= t); assert(t.drop_last() =~= t.take(n)); assert(s.drop_last() =~= s.take(n));
    assert forall|a: VPtr<Account>| #[trigger] h.contains_key(a) implies h[a].posts@ == links(t, a) by { plinks_fin(x.posts@, y.posts@, a); assert(h[a].posts@ == links(s, a)); }
    assert(grew(h, h));
    jok_at(j, k, h, h, n, n + 1);
    posts_of_kept(x.posts@, x.posts@, w.posts, h, h, j.master, j.commodity_pool, k.commodity_pool);
    assert(completed(x.posts@, y.posts@)) by { assert forall|i: int| 0 <= i < x.posts@.len() implies (#[trigger] y.posts@[i]).account == x.posts@[i].account && otext(y.posts@[i].note) == otext(x.posts@[i].note) && (x.posts@[i].amount is Some ==> oav(y.posts@[i].amount) == oav(x.posts@[i].amount)) by { assert(same_post(x.posts@[i], y.posts@[i])); } }
}
pub open spec fn fin_frame(x: Xact, y: Xact) -> bool { y.date == x.date && y.aux_date == x.aux_date && y.payee == x.payee && y.note == x.note && y.journal == x.journal && y.v_id == x.v_id && fin_same(x.posts@, y.posts@) }
proof fn plinks_fin(s: Seq<Post>, t: Seq<Post>, a: VPtr<Account>)
    requires fin_same(s, t),
    ensures plinks(s, a) == plinks(t, a),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(same_post(s[s.len() - 1], t[s.len() - 1]));
        assert(fin_same(s.drop_last(), t.drop_last())) by { assert forall|i: int| 0 <= i < s.len() - 1 implies same_post(#[trigger] s.drop_last()[i], t.drop_last()[i]) && (s.drop_last()[i].amount is Some ==> oav(t.drop_last()[i].amount) == oav(s.drop_last()[i].amount)) by { assert(s.drop_last()[i] == s[i]); assert(t.drop_last()[i] == t[i]); assert(same_post(s[i], t[i])); } }
        plinks_fin(s.drop_last(), t.drop_last(), a);
    }
}
pub proof fn xskept_take(a: Seq<Xact>, b: Seq<Xact>, c: Seq<Xact>)
    requires xskept(a, b), c.len() >= a.len(), c.take(a.len() as int) == b.take(a.len() as int),
    ensures xskept(a, c),
{ assert forall|i: int| 0 <= i < a.len() implies xkept(a[i], #[trigger] c[i]) by { assert(c[i] == c.take(a.len() as int)[i]); assert(b[i] == b.take(a.len() as int)[i]); } }
/// Theorem (C14, C15): a transaction has been read: it is in the journal as written, its postings in their accounts
pub proof fn x_read(j0: Journal, h0: Heap, j1: Journal, h1: Heap, j2: Journal, h2: Heap, w: XW)
    requires jok(j1, h1, j0.xacts@.len() as int), j1.xacts@.len() == j0.xacts@.len() + 1, j1.master == j0.master, grew(h0, h1), pool_ext(j0.commodity_pool, j1.commodity_pool), xskept(j0.xacts@, j1.xacts@),
        ({ let n = j0.xacts@.len() as int; let x = j1.xacts@[n]; let y = j2.xacts@[n]; x_so_far(x, w, h1, j1.master, j1.commodity_pool) && entered(h1, h2, x.posts@)
            && j2.master == j1.master && pool_wf(j2.commodity_pool) && same_but_prices(j1.commodity_pool, j2.commodity_pool) && only_at(j1.xacts@, j2.xacts@, n) && fin_frame(x, y) && posts_ok(j2.commodity_pool, y.posts@) && (!fin_open(x.posts@) ==> fin_done(x.posts@, y.posts@)) }),
    ensures jinv(j2, h2), gains(j0, h0, j2, h2, seq![w]),
{
    let n = j0.xacts@.len() as int;
    enter_step(j1, h1, h2, n, w); fin_step(j1, j2, h2, n, w);
    grew_trans(h0, h1, h2); pool_ext_trans(j0.commodity_pool, j1.commodity_pool, j2.commodity_pool); xskept_take(j0.xacts@, j1.xacts@, j2.xacts@);
}
/// a posting without amount is written so: what is refused of the postings is refused of the text
pub proof fn refuses(x: Xact, w: XW, h: Heap, m: VPtr<Account>, pool: CommodityPool)
    requires x_so_far(x, w, h, m, pool),
    ensures fin_open(x.posts@) || fin_refused(x.posts@, x.date is Some) ==> may_refuse(w),
{ assert(posts_of(x.posts@, w.posts, h, m, pool)); }
/// only commodities and prices are new
pub proof fn pool_step(j: Journal, k: Journal, h: Heap)
    requires jinv(j, h), k.master == j.master, k.xacts == j.xacts, pool_wf(k.commodity_pool), pool_ext(j.commodity_pool, k.commodity_pool),
    ensures jinv(k, h), gains(j, h, k, h, Seq::<XW>::empty()),
{ paid_ext(j.commodity_pool, k.commodity_pool, j.xacts@); }
