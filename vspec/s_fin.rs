// ---- completing a transaction (C01, C02)
/// what a posting counts for: the cost where there is one, otherwise the amount
pub open spec fn pval(p: Post) -> Option<Amount> { if p.cost is Some { p.cost } else { p.amount } }
pub open spec fn vals(s: Seq<Post>) -> Seq<Amount>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if pval(s.last()) is Some { vals(s.drop_last()).push(pval(s.last())->0) } else { vals(s.drop_last()) } }
pub open spec fn has_comm(s: Seq<Amount>, c: VPtr<Commodity>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).commodity == c }
/// b is the balance of the values v
pub open spec fn bal_of(b: Seq<Amount>, v: Seq<Amount>) -> bool {
    bal_wf(b) && (forall|c: VPtr<Commodity>| #[trigger] bal_sum(b, c) == bal_sum(v, c)) && (forall|c: VPtr<Commodity>| #[trigger] has_comm(b, c) <==> has_comm(v, c))
}
pub open spec fn one_comm(v: Seq<Amount>) -> bool { v.len() > 0 && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).commodity == v[0].commodity }
pub open spec fn two_comm(v: Seq<Amount>, a: VPtr<Commodity>, b: VPtr<Commodity>) -> bool {
    a != b && has_comm(v, a) && has_comm(v, b) && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).commodity == a || v[i].commodity == b
}
pub open spec fn some_two(v: Seq<Amount>) -> bool { exists|a: VPtr<Commodity>, b: VPtr<Commodity>| two_comm(v, a, b) }
pub open spec fn no_null(s: Seq<Post>) -> bool { forall|i: int| 0 <= i < s.len() ==> pval(#[trigger] s[i]) is Some }
pub open spec fn null_at(s: Seq<Post>, k: int) -> bool { 0 <= k < s.len() && pval(s[k]) is None }
pub open spec fn two_null(s: Seq<Post>) -> bool { exists|i: int, j: int| 0 <= i < j < s.len() && pval(#[trigger] s[i]) is None && pval(#[trigger] s[j]) is None }
pub open spec fn no_cost(s: Seq<Post>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).cost is None }
/// outside the properties: stated costs in a transaction of two commodities without an elided posting
pub open spec fn fin_open(s: Seq<Post>) -> bool { no_null(s) && !no_cost(s) && some_two(vals(s)) }
pub open spec fn first_comm(s: Seq<Post>) -> VPtr<Commodity> { (s[0].amount->0).commodity }
/// the transaction implies a cost: amounts in exactly two commodities, the first posting's and b, with non-zero sums, no stated cost
pub open spec fn implies_cost(s: Seq<Post>, b: VPtr<Commodity>) -> bool {
    s.len() > 0 && no_null(s) && no_cost(s) && two_comm(vals(s), first_comm(s), b) && bal_sum(vals(s), first_comm(s)) != 0real && bal_sum(vals(s), b) != 0real
}
pub open spec fn bad_cost(p: Post, dated: bool) -> bool {
    p.cost is Some && (p.amount is None || (p.amount->0).commodity == (p.cost->0).commodity || !dated || (p.amount->0).commodity == nullp::<Commodity>() || ((p.cost->0).commodity == nullp::<Commodity>() && qv((p.cost->0).quantity) != 0real))
}
/// which transactions are refused
pub open spec fn fin_refused(s: Seq<Post>, dated: bool) -> bool {
    s.len() == 1 || two_null(s) || (!no_null(s) && !one_comm(vals(s))) || (exists|i: int| 0 <= i < s.len() && bad_cost(#[trigger] s[i], dated))
    || (exists|b: VPtr<Commodity>| #[trigger] implies_cost(s, b) && (!dated || b == nullp::<Commodity>() || first_comm(s) == nullp::<Commodity>()))
}
pub open spec fn okc(pool: CommodityPool, p: VPtr<Commodity>) -> bool { p == nullp::<Commodity>() || in_pool(pool, p) }
pub open spec fn post_ok(pool: CommodityPool, p: Post) -> bool { (p.amount is Some ==> okc(pool, (p.amount->0).commodity)) && (p.cost is Some ==> okc(pool, (p.cost->0).commodity)) }
pub open spec fn posts_ok(pool: CommodityPool, s: Seq<Post>) -> bool { forall|i: int| 0 <= i < s.len() ==> post_ok(pool, #[trigger] s[i]) }
pub open spec fn oav(a: Option<Amount>) -> Option<(real, VPtr<Commodity>)> { match a { Some(x) => Some(av(x)), None => None } }
/// account, transaction and note as before
pub open spec fn same_post(a: Post, b: Post) -> bool { b.account == a.account && b.xact_ptr == a.xact_ptr && b.note == a.note && b.v_id == a.v_id }
/// the implied cost of a posting
pub open spec fn costed(s: Post, m: Post, c: VPtr<Commodity>, ratio: real, other: VPtr<Commodity>) -> bool {
    same_post(s, m) && m.amount == s.amount && s.amount is Some
    && (if (s.amount->0).commodity == c { m.cost is Some && av(m.cost->0) == (ratio * qv((s.amount->0).quantity), other) } else { m.cost == s.cost })
}
/// the absolute ratio of two sums
pub open spec fn is_ratio(r: real, other: real, me: real) -> bool { r >= 0real && r * rabs(me) == rabs(other) }
pub open spec fn costs_implied(s: Seq<Post>, f: Seq<Post>, c: VPtr<Commodity>, b: VPtr<Commodity>, ratio: real) -> bool {
    is_ratio(ratio, bal_sum(vals(s), b), bal_sum(vals(s), c))
    && forall|i: int| 0 <= i < s.len() ==> (if ((#[trigger] s[i]).amount->0).commodity == c { oav(f[i].cost) == Some((ratio * qv((s[i].amount->0).quantity), b)) } else { f[i].cost is None })
}
pub open spec fn same_prices(x: Edges, y: Edges) -> bool { forall|c: int, d: int| #[trigger] pmap(y, c, d) == pmap(x, c, d) }
/// the price which a posting establishes
pub open spec fn price_step(x: Edges, y: Edges, p: Post, t: NaiveDateTime) -> bool {
    if p.cost is Some && qv((p.cost->0).quantity) != 0real {
        exists|q: Quantity| cost_per_unit(qv(q), qv((p.amount->0).quantity), qv((p.cost->0).quantity), false) && #[trigger] price_added(x, y, node_of((p.amount->0).commodity), node_of((p.cost->0).commodity), t, q)
    } else { same_prices(x, y) }
}
/// the states of the price history as the postings are recorded one after the other
pub open spec fn fin_path(es: Seq<Edges>, s: Seq<Post>, t: NaiveDateTime) -> bool {
    es.len() == s.len() + 1 && forall|i: int| 0 <= i < s.len() ==> price_step(es[i], es[i + 1], #[trigger] s[i], t)
}
pub open spec fn fin_prices(x: Edges, y: Edges, s: Seq<Post>, t: NaiveDateTime) -> bool {
    exists|es: Seq<Edges>| #[trigger] fin_path(es, s, t) && es[0] == x && es[s.len() as int] == y
}
/// what completing gives, for transactions which are not refused
pub open spec fn fin_done(s: Seq<Post>, f: Seq<Post>) -> bool { fin_same(s, f) && fin_vals(s, f) }
/// what completing keeps in any case
pub open spec fn fin_same(s: Seq<Post>, f: Seq<Post>) -> bool {
    f.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> same_post(#[trigger] s[i], f[i]) && (s[i].amount is Some ==> oav(f[i].amount) == oav(s[i].amount)))
}
pub open spec fn fin_vals(s: Seq<Post>, f: Seq<Post>) -> bool {
    (forall|k: int| null_at(s, k) ==> oav((#[trigger] f[k]).amount) == Some((0real - bal_sum(vals(s), vals(s)[0].commodity), vals(s)[0].commodity)) && f[k].cost is None)
    && (forall|b: VPtr<Commodity>| #[trigger] implies_cost(s, b) ==> exists|r: real| costs_implied(s, f, first_comm(s), b, r))
    && ((forall|b: VPtr<Commodity>| !#[trigger] implies_cost(s, b)) ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] f[i]).cost == s[i].cost)
}
// ---- pointers to elements of the vector of postings
pub uninterp spec fn eidx(p: VPtr<Post>) -> int;
pub uninterp spec fn elen(p: VPtr<Post>) -> int;
/// the address of the element i of a vector of n elements
#[verifier::external_body]
pub fn v_elem_addr(i: usize, Ghost(n): Ghost<int>) -> (r: VPtr<Post>)
    ensures r != nullp::<Post>(), eidx(r) == i, elen(r) == n { unimplemented!() }
/// &mut *p for an element of v, which has not been resized since
#[verifier::external_body]
pub fn v_elem_mut<'a>(v: &'a mut Vec<Post>, p: VPtr<Post>) -> (r: &'a mut Post)
    requires 0 <= eidx(p) < old(v)@.len(), elen(p) == old(v)@.len(), p != nullp::<Post>(),
    ensures *r == old(v)@[eidx(p)], final(v)@ == old(v)@.update(eidx(p), *final(r)) { unimplemented!() }
/// Amount::get_commodity: the commodity outlives the amount
#[verifier::external_body]
pub fn v_gc<'a>(a: &Amount) -> (r: Option<&'a Commodity>) ensures r == a.s_get_commodity() { unimplemented!() }

// ---- lemmas
pub proof fn bal_of_step(b: Seq<Amount>, v: Seq<Amount>, b2: Seq<Amount>, a: Amount)
    requires bal_of(b, v), bal_step(b, b2, a.commodity, qv(a.quantity)),
    ensures bal_of(b2, v.push(a)),
{
    bal_step_sum(b, b2, a.commodity, qv(a.quantity));
    assert(v.push(a).drop_last() =~= v);
    assert forall|c: VPtr<Commodity>| #[trigger] bal_sum(b2, c) == bal_sum(v.push(a), c) by { assert(bal_sum(b, c) == bal_sum(v, c)); }
    assert forall|c: VPtr<Commodity>| #[trigger] has_comm(b2, c) <==> has_comm(v.push(a), c) by {
        assert(has_comm(b, c) <==> has_comm(v, c));
        if has_comm(b2, c) {
            let i = choose|i: int| 0 <= i < b2.len() && (#[trigger] b2[i]).commodity == c;
            if c == a.commodity { assert(v.push(a)[v.len() as int].commodity == c); }
            else {
                assert(0 <= i < b.len() && b[i].commodity == c);
                assert(has_comm(b, c));
                let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).commodity == c;
                assert(v.push(a)[j].commodity == c);
            }
        }
        if has_comm(v.push(a), c) {
            let i = choose|i: int| 0 <= i < v.push(a).len() && (#[trigger] v.push(a)[i]).commodity == c;
            if i < v.len() {
                assert(v[i].commodity == c); assert(has_comm(v, c)); assert(has_comm(b, c));
                let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).commodity == c;
                assert(b2[j].commodity == c);
            } else {
                if exists|k: int| 0 <= k < b.len() && (#[trigger] b[k]).commodity == c { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).commodity == c; assert(b2[k].commodity == c); }
                else { assert(b2[b2.len() - 1].commodity == c); }
            }
        }
    }
}
pub proof fn vals_step(s: Seq<Post>, k: int)
    requires 0 <= k < s.len(),
    ensures vals(s.take(k + 1)) == (if pval(s[k]) is Some { vals(s.take(k)).push(pval(s[k])->0) } else { vals(s.take(k)) }),
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]); }
pub proof fn bal_of_empty()
    ensures bal_of(Seq::<Amount>::empty(), vals(Seq::<Post>::empty())),
{ assert(vals(Seq::<Post>::empty()) == Seq::<Amount>::empty()); }
/// number of entries and of commodities
pub proof fn bal_of_len(b: Seq<Amount>, v: Seq<Amount>)
    requires bal_of(b, v),
    ensures b.len() == 1 <==> one_comm(v), b.len() == 1 ==> av(b[0]) == (bal_sum(v, v[0].commodity), v[0].commodity),
        b.len() == 2 <==> some_two(v), b.len() == 2 ==> two_comm(v, b[0].commodity, b[1].commodity) && qv(b[0].quantity) == bal_sum(v, b[0].commodity) && qv(b[1].quantity) == bal_sum(v, b[1].commodity),
{
    assert forall|k: int| 0 <= k < b.len() implies qv(b[k].quantity) == bal_sum(v, #[trigger] b[k].commodity) && has_comm(v, b[k].commodity) by { bal_sum_entry(b, k); assert(bal_sum(b, b[k].commodity) == bal_sum(v, b[k].commodity)); assert(has_comm(b, b[k].commodity)); }
    assert forall|i: int| 0 <= i < v.len() implies has_comm(b, #[trigger] v[i].commodity) by { assert(has_comm(v, v[i].commodity)); }
    if b.len() == 1 {
        assert(has_comm(v, b[0].commodity));
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).commodity == v[0].commodity by { assert(has_comm(b, v[i].commodity)); assert(has_comm(b, v[0].commodity)); }
    }
    if one_comm(v) {
        assert(has_comm(b, v[0].commodity));
        if b.len() > 1 { assert(has_comm(v, b[0].commodity) && has_comm(v, b[1].commodity)); assert(b[0].commodity == v[0].commodity); assert(b[1].commodity == v[0].commodity); assert(false); }
    }
    if b.len() == 2 {
        assert(two_comm(v, b[0].commodity, b[1].commodity)) by {
            assert(b[0].commodity != b[1].commodity);
            assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).commodity == b[0].commodity || v[i].commodity == b[1].commodity by { assert(has_comm(b, v[i].commodity)); }
        }
    }
    if some_two(v) {
        let (x, y) = choose|x: VPtr<Commodity>, y: VPtr<Commodity>| two_comm(v, x, y);
        assert(has_comm(b, x) && has_comm(b, y)) by { assert(has_comm(v, x)); assert(has_comm(v, y)); }
        let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).commodity == x;
        let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).commodity == y;
        assert(i != j);
        if b.len() > 2 {
            let k: int = if i != 0 && j != 0 { 0 } else if i != 1 && j != 1 { 1 } else { 2 };
            assert(has_comm(v, b[k].commodity));
            assert(b[k].commodity == x || b[k].commodity == y);
            assert(false);
        }
    }
}
pub proof fn two_comm_which(v: Seq<Amount>, a: VPtr<Commodity>, b: VPtr<Commodity>, c: VPtr<Commodity>, d: VPtr<Commodity>)
    requires two_comm(v, a, b), two_comm(v, c, d),
    ensures (a == c && b == d) || (a == d && b == c),
{
    let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).commodity == c;
    let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).commodity == d;
}
pub proof fn vals_all(s: Seq<Post>)
    requires no_null(s),
    ensures vals(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] vals(s)[i] == pval(s[i])->0,
    decreases s.len(),
{ if s.len() > 0 { assert(no_null(s.drop_last())) by { assert forall|i: int| 0 <= i < s.drop_last().len() implies pval(#[trigger] s.drop_last()[i]) is Some by { assert(s.drop_last()[i] == s[i]); } } vals_all(s.drop_last()); assert(pval(s[s.len() - 1]) is Some); } }
pub proof fn vals_ok(pool: CommodityPool, s: Seq<Post>)
    requires posts_ok(pool, s),
    ensures forall|i: int| 0 <= i < vals(s).len() ==> okc(pool, (#[trigger] vals(s)[i]).commodity),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(posts_ok(pool, s.drop_last())) by { assert forall|i: int| 0 <= i < s.drop_last().len() implies post_ok(pool, #[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); } }
        vals_ok(pool, s.drop_last());
        assert(post_ok(pool, s[s.len() - 1]));
    }
}
/// equal commodities of the pool are the same
pub proof fn pool_ceq(pool: CommodityPool, p: VPtr<Commodity>, q: VPtr<Commodity>)
    requires pool_wf(pool), in_pool(pool, p), in_pool(pool, q), cderef(p).symbol@ == cderef(q).symbol@,
    ensures p == q,
{
    let s = choose|s: Seq<char>| #[trigger] pool.commodities@.contains_key(s) && p == caddr(pool.commodities@[s]);
    let t = choose|t: Seq<char>| #[trigger] pool.commodities@.contains_key(t) && q == caddr(pool.commodities@[t]);
    assert(pool_entry(pool, s)); assert(pool_entry(pool, t));
}
pub proof fn okc_same(a: CommodityPool, b: CommodityPool)
    requires same_but_prices(a, b),
    ensures forall|p: VPtr<Commodity>| #[trigger] okc(a, p) <==> okc(b, p), forall|p: VPtr<Commodity>| #[trigger] in_pool(a, p) <==> in_pool(b, p),
{
    assert forall|p: VPtr<Commodity>| #[trigger] in_pool(a, p) <==> in_pool(b, p) by { }
    assert forall|p: VPtr<Commodity>| #[trigger] okc(a, p) <==> okc(b, p) by { assert(in_pool(a, p) <==> in_pool(b, p)); }
}
pub proof fn fin_prices_base(x: Edges, t: NaiveDateTime)
    ensures fin_prices(x, x, Seq::<Post>::empty(), t),
{ assert(fin_path(seq![x], Seq::<Post>::empty(), t)); }
pub proof fn fin_prices_step(x: Edges, m: Edges, y: Edges, s: Seq<Post>, k: int, t: NaiveDateTime)
    requires 0 <= k < s.len(), fin_prices(x, m, s.take(k), t), price_step(m, y, s[k], t),
    ensures fin_prices(x, y, s.take(k + 1), t),
{
    let es = choose|es: Seq<Edges>| #[trigger] fin_path(es, s.take(k), t) && es[0] == x && es[k] == m;
    let e2 = es.push(y);
    let s2 = s.take(k + 1);
    assert(fin_path(e2, s2, t)) by {
        assert forall|i: int| 0 <= i < s2.len() implies price_step(e2[i], e2[i + 1], #[trigger] s2[i], t) by { if i < k { assert(s.take(k)[i] == s[i]); } }
    }
}
/// a posting without a cost has no part in the prices
pub proof fn fin_prices_frame(x: Edges, y: Edges, s: Seq<Post>, f: Seq<Post>, k: int, t: NaiveDateTime)
    requires fin_prices(x, y, s, t), 0 <= k < s.len(), s[k].cost is None, f[k].cost is None, f == s.update(k, f[k]),
    ensures fin_prices(x, y, f, t),
{
    let es = choose|es: Seq<Edges>| #[trigger] fin_path(es, s, t) && es[0] == x && es[s.len() as int] == y;
    assert(fin_path(es, f, t)) by {
        assert forall|i: int| 0 <= i < f.len() implies price_step(es[i], es[i + 1], #[trigger] f[i], t) by { assert(price_step(es[i], es[i + 1], s[i], t)); }
    }
}
/// no implied cost unless there are two sums, both non-zero
pub proof fn no_implied(s: Seq<Post>, b: Seq<Amount>)
    requires bal_of(b, vals(s)), !(no_null(s) && b.len() == 2 && qv(b[0].quantity) != 0real && qv(b[1].quantity) != 0real) || (s.len() > 0 && s[0].amount is None),
    ensures forall|o: VPtr<Commodity>| !#[trigger] implies_cost(s, o),
{
    bal_of_len(b, vals(s));
    assert forall|o: VPtr<Commodity>| !#[trigger] implies_cost(s, o) by {
        if implies_cost(s, o) {
            assert(some_two(vals(s)));
            assert(pval(s[0]) is Some && s[0].cost is None);
            two_comm_which(vals(s), first_comm(s), o, b[0].commodity, b[1].commodity);
        }
    }
}
/// phase by phase: m are the postings with the implied costs (if two: cost of c in o at ratio q), f the result
pub proof fn fin_end(s: Seq<Post>, m: Seq<Post>, f: Seq<Post>, dated: bool, two: bool, c: VPtr<Commodity>, o: VPtr<Commodity>, q: real)
    requires s.len() != 1, m.len() == s.len(), f.len() == s.len(), !two_null(s),
        !two ==> m == s && forall|b: VPtr<Commodity>| !#[trigger] implies_cost(s, b),
        two ==> no_null(s) && some_two(vals(s)) && forall|i: int| 0 <= i < s.len() ==> costed(s[i], #[trigger] m[i], c, q, ccomb(ccomb(o, c), c)),
        two && no_cost(s) ==> implies_cost(s, o) && c == first_comm(s) && is_ratio(q, bal_sum(vals(s), o), bal_sum(vals(s), c)),
        forall|i: int| 0 <= i < s.len() ==> !bad_cost(#[trigger] m[i], dated),
        no_null(s) || one_comm(vals(s)),
        forall|i: int| 0 <= i < s.len() ==> same_post(m[i], #[trigger] f[i]) && f[i].cost == m[i].cost && (m[i].amount is Some ==> oav(f[i].amount) == oav(m[i].amount)),
        forall|k: int| null_at(s, k) ==> oav((#[trigger] f[k]).amount) == Some((0real - bal_sum(vals(s), vals(s)[0].commodity), vals(s)[0].commodity)),
    ensures fin_same(s, f), !fin_open(s) ==> !fin_refused(s, dated) && fin_done(s, f),
{
    assert forall|i: int| 0 <= i < s.len() implies same_post(#[trigger] s[i], f[i]) && (s[i].amount is Some ==> oav(f[i].amount) == oav(s[i].amount)) by {
        assert(same_post(m[i], f[i]));
        if two { assert(costed(s[i], m[i], c, q, ccomb(ccomb(o, c), c))); }
    }
    if !fin_open(s) {
        assert forall|i: int| 0 <= i < s.len() implies same_post(#[trigger] s[i], f[i]) && (s[i].amount is Some ==> oav(f[i].amount) == oav(s[i].amount)) && !bad_cost(s[i], dated) by {
            assert(same_post(m[i], f[i])); assert(!bad_cost(m[i], dated));
            if two { assert(costed(s[i], m[i], c, q, ccomb(ccomb(o, c), c))); assert(s[i].cost is None); }
        }
        if two {
            assert(no_cost(s));
            vals_all(s);
            assert(has_comm(vals(s), c));
            let k = choose|i: int| 0 <= i < vals(s).len() && (#[trigger] vals(s)[i]).commodity == c;
            assert(s[k].amount is Some && (s[k].amount->0).commodity == c) by { assert(vals(s)[k] == pval(s[k])->0); assert(s[k].cost is None); }
            assert(costed(s[k], m[k], c, q, ccomb(ccomb(o, c), c)));
            assert(!bad_cost(m[k], dated));
            assert(o != nullp::<Commodity>() && c != nullp::<Commodity>() && dated);
            assert forall|b: VPtr<Commodity>| #[trigger] implies_cost(s, b) implies b == o by { two_comm_which(vals(s), c, o, c, b); }
            assert(costs_implied(s, f, c, o, q)) by {
                assert forall|i: int| 0 <= i < s.len() implies (if ((#[trigger] s[i]).amount->0).commodity == c { oav(f[i].cost) == Some((q * qv((s[i].amount->0).quantity), o)) } else { f[i].cost is None }) by {
                    assert(costed(s[i], m[i], c, q, ccomb(ccomb(o, c), c))); assert(same_post(m[i], f[i])); assert(s[i].cost is None);
                }
            }
        }
        assert(!fin_refused(s, dated));
        assert(forall|k: int| null_at(s, k) ==> (#[trigger] f[k]).cost is None) by {
            assert forall|k: int| null_at(s, k) implies (#[trigger] f[k]).cost is None by { assert(same_post(m[k], f[k])); if two { assert(pval(s[k]) is Some); } }
        }
        assert((forall|b: VPtr<Commodity>| !#[trigger] implies_cost(s, b)) ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] f[i]).cost == s[i].cost) by {
            if forall|b: VPtr<Commodity>| !#[trigger] implies_cost(s, b) { assert(!two) by { assert(!implies_cost(s, o)); } }
        }
    }
}
pub open spec fn pool_inj(pool: CommodityPool) -> bool { forall|p: VPtr<Commodity>, q: VPtr<Commodity>| in_pool(pool, p) && in_pool(pool, q) && #[trigger] ceq(cderef(p), cderef(q)) ==> p == q }
pub proof fn pool_is_inj(pool: CommodityPool)
    requires pool_wf(pool),
    ensures pool_inj(pool),
{ broadcast use ax_hist::ceq_fields; assert forall|p: VPtr<Commodity>, q: VPtr<Commodity>| in_pool(pool, p) && in_pool(pool, q) && #[trigger] ceq(cderef(p), cderef(q)) implies p == q by { pool_ceq(pool, p, q); } }
/// the first posting with an amount
pub open spec fn is_top(s: Seq<Post>, p: Post, n: int) -> bool { exists|j: int| 0 <= j < n && p == #[trigger] s[j] && s[j].amount is Some && forall|i: int| 0 <= i < j ==> (#[trigger] s[i]).amount is None }
pub open spec fn copt<'a>(p: VPtr<Commodity>) -> Option<&'a Commodity> { if p == nullp::<Commodity>() { None } else { Some(&cderef(p)) } }
pub proof fn copt_same(pool: CommodityPool, p: VPtr<Commodity>, q: VPtr<Commodity>)
    requires pool_inj(pool), okc(pool, p), okc(pool, q),
    ensures p != nullp::<Commodity>() && q != nullp::<Commodity>() ==> (ceq(cderef(p), cderef(q)) <==> p == q),
{ broadcast use ax_hist::ceq_refl; }
pub proof fn no_amount_bad(s: Seq<Post>, dated: bool)
    requires no_null(s),
    ensures forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).amount is None ==> fin_refused(s, dated),
{ assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).amount is None implies fin_refused(s, dated) by { assert(pval(s[i]) is Some); assert(bad_cost(s[i], dated)); } }
/// the two sums of a transaction which implies a cost
pub proof fn two_costs(s: Seq<Post>, b: Seq<Amount>, top: Post, x: Amount, y: Amount)
    requires bal_of(b, vals(s)), b.len() == 2, no_null(s), is_top(s, top, s.len() as int), (x == b[0] && y == b[1]) || (x == b[1] && y == b[0]),
        qv(x.quantity) != 0real, qv(y.quantity) != 0real, no_cost(s) ==> x.commodity == (top.amount->0).commodity,
    ensures some_two(vals(s)), qv(x.quantity) == bal_sum(vals(s), x.commodity), qv(y.quantity) == bal_sum(vals(s), y.commodity),
        no_cost(s) ==> implies_cost(s, y.commodity) && x.commodity == first_comm(s),
{
    bal_of_len(b, vals(s));
    if no_cost(s) {
        assert(pval(s[0]) is Some && s[0].cost is None);
        assert(two_comm(vals(s), x.commodity, y.commodity));
    }
}
/// when a completed posting is refused, so is the transaction
pub proof fn mid_bad(s: Seq<Post>, m: Seq<Post>, dated: bool, two: bool, c: VPtr<Commodity>, o: VPtr<Commodity>, q: real)
    requires m.len() == s.len(), !two ==> m == s,
        two ==> no_null(s) && some_two(vals(s)) && forall|i: int| 0 <= i < s.len() ==> costed(s[i], #[trigger] m[i], c, q, ccomb(ccomb(o, c), c)),
        two && no_cost(s) ==> implies_cost(s, o) && c == first_comm(s),
    ensures forall|i: int| 0 <= i < m.len() && bad_cost(#[trigger] m[i], dated) ==> fin_open(s) || fin_refused(s, dated),
{
    assert forall|i: int| 0 <= i < m.len() && bad_cost(#[trigger] m[i], dated) implies fin_open(s) || fin_refused(s, dated) by {
        if two {
            if no_cost(s) { assert(s[i].cost is None); assert(costed(s[i], m[i], c, q, ccomb(ccomb(o, c), c))); assert(implies_cost(s, o)); }
        } else { assert(bad_cost(s[i], dated)); }
    }
}
pub proof fn top_in(s: Seq<Post>, b: Seq<Amount>, top: Post)
    requires bal_of(b, vals(s)), no_null(s), no_cost(s), is_top(s, top, s.len() as int),
    ensures has_comm(b, (top.amount->0).commodity),
{
    vals_all(s);
    let j = choose|j: int| 0 <= j < s.len() && top == #[trigger] s[j];
    assert(vals(s)[j].commodity == (top.amount->0).commodity);
    assert(has_comm(vals(s), (top.amount->0).commodity));
}
pub proof fn bal_ok(pool: CommodityPool, s: Seq<Post>, b: Seq<Amount>)
    requires posts_ok(pool, s), bal_of(b, vals(s)),
    ensures forall|i: int| 0 <= i < b.len() ==> okc(pool, (#[trigger] b[i]).commodity),
{
    vals_ok(pool, s);
    assert forall|i: int| 0 <= i < b.len() implies okc(pool, (#[trigger] b[i]).commodity) by { assert(has_comm(b, b[i].commodity)); assert(has_comm(vals(s), b[i].commodity)); }
}
/// posts_ok, hidden
#[verifier::opaque]
pub open spec fn posts_fine(pool: CommodityPool, s: Seq<Post>) -> bool { posts_ok(pool, s) }
pub proof fn fin_ok(a: CommodityPool, b: CommodityPool, m: Seq<Post>, f: Seq<Post>)
    requires posts_ok(a, m), same_but_prices(a, b), f.len() == m.len(), forall|i: int| 0 <= i < m.len() ==> same_post(m[i], #[trigger] f[i]) && f[i].cost == m[i].cost && oav(f[i].amount) == oav(m[i].amount),
    ensures posts_fine(b, f),
{ reveal(posts_fine); okc_same(a, b); assert forall|i: int| 0 <= i < f.len() implies post_ok(b, #[trigger] f[i]) by { assert(post_ok(a, m[i])); if m[i].amount is Some { assert(okc(a, (m[i].amount->0).commodity)); } if m[i].cost is Some { assert(okc(a, (m[i].cost->0).commodity)); } } }
pub proof fn fin_ok1(a: CommodityPool, b: CommodityPool, f: Seq<Post>, g: Seq<Post>, k: int, c: VPtr<Commodity>)
    requires posts_fine(b, f), same_but_prices(a, b), 0 <= k < f.len(), g == f.update(k, g[k]), g[k].amount is Some, (g[k].amount->0).commodity == c, okc(a, c), g[k].cost == f[k].cost,
    ensures posts_fine(b, g),
{ reveal(posts_fine); okc_same(a, b); assert forall|i: int| 0 <= i < g.len() implies post_ok(b, #[trigger] g[i]) by { assert(post_ok(b, f[i])); } }
// ---- the first k postings (hidden: terms for parts of the sequence lead the solver in circles)
#[verifier::opaque]
pub open spec fn bal_to(b: Seq<Amount>, s: Seq<Post>, k: int) -> bool { bal_of(b, vals(s.take(k))) }
pub proof fn bal_to_0(s: Seq<Post>)
    ensures bal_to(Seq::<Amount>::empty(), s, 0),
{ reveal(bal_to); bal_of_empty(); assert(s.take(0) =~= Seq::<Post>::empty()); }
pub proof fn bal_to_step(b: Seq<Amount>, b2: Seq<Amount>, s: Seq<Post>, k: int)
    requires 0 <= k < s.len(), bal_to(b, s, k), pval(s[k]) is Some ==> bal_step(b, b2, (pval(s[k])->0).commodity, qv((pval(s[k])->0).quantity)), pval(s[k]) is None ==> b2 == b,
    ensures bal_to(b2, s, k + 1),
{ reveal(bal_to); vals_step(s, k); if pval(s[k]) is Some { bal_of_step(b, vals(s.take(k)), b2, pval(s[k])->0); } }
pub proof fn bal_to_all(b: Seq<Amount>, s: Seq<Post>)
    requires bal_to(b, s, s.len() as int),
    ensures bal_of(b, vals(s)),
{ reveal(bal_to); assert(s.take(s.len() as int) =~= s); }
#[verifier::opaque]
pub open spec fn prices_to(x: Edges, y: Edges, s: Seq<Post>, k: int, t: NaiveDateTime) -> bool { fin_prices(x, y, s.take(k), t) }
pub proof fn prices_to_0(x: Edges, s: Seq<Post>, t: NaiveDateTime)
    ensures prices_to(x, x, s, 0, t),
{ reveal(prices_to); fin_prices_base(x, t); assert(s.take(0) =~= Seq::<Post>::empty()); }
pub proof fn prices_to_step(x: Edges, m: Edges, y: Edges, s0: Seq<Post>, s: Seq<Post>, k: int, t: NaiveDateTime)
    requires 0 <= k < s.len(), prices_to(x, m, s0, k, t), s =~= s0.update(k, s[k]), s0.len() == s.len(), price_step(m, y, s[k], t),
    ensures prices_to(x, y, s, k + 1, t),
{ reveal(prices_to); assert(s.take(k) =~= s0.take(k)); fin_prices_step(x, m, y, s, k, t); }
pub proof fn prices_to_all(x: Edges, y: Edges, s: Seq<Post>, t: NaiveDateTime)
    requires prices_to(x, y, s, s.len() as int, t),
    ensures fin_prices(x, y, s, t),
{ reveal(prices_to); assert(s.take(s.len() as int) =~= s); }
/// the ways to be refused which do not depend on the costs
pub proof fn refused_how(s: Seq<Post>, dated: bool)
    ensures s.len() == 1 || two_null(s) || (!no_null(s) && !one_comm(vals(s))) ==> fin_refused(s, dated),
{ }
pub proof fn two_nulls(s: Seq<Post>, i: int, j: int, dated: bool)
    requires 0 <= i < j < s.len(), pval(s[i]) is None, pval(s[j]) is None,
    ensures two_null(s), fin_refused(s, dated),
{ assert(two_null(s)); }
pub proof fn one_null(s: Seq<Post>, k: int)
    requires forall|i: int| 0 <= i < s.len() && pval(#[trigger] s[i]) is None ==> i == k,
    ensures !two_null(s),
{ }
pub proof fn top_step(s: Seq<Post>, k: int)
    requires 0 <= k < s.len(),
    ensures (forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).amount is None) && s[k].amount is Some ==> is_top(s, s[k], s.len() as int),
{ }
pub proof fn top_some(s: Seq<Post>)
    ensures forall|p: Post, k: int| #[trigger] is_top(s, p, k) ==> p.amount is Some,
{ }
