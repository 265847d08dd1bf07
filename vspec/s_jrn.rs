// ---- the journal: transactions, their postings, and the links between them (C12, C14, C15)
pub open spec fn xaddr(x: Xact) -> VPtr<Xact> { VPtr { addr: x.v_id@, ph: core::marker::PhantomData } }
pub open spec fn paddr(x: Post) -> VPtr<Post> { VPtr { addr: x.v_id@, ph: core::marker::PhantomData } }
impl VObj for Xact {
    open spec fn s_addr(&self) -> VPtr<Xact> { xaddr(*self) }
    open spec fn moved(a: Xact, b: Xact) -> bool { b.date == a.date && b.aux_date == a.aux_date && b.payee == a.payee && b.note == a.note && b.journal == a.journal && b.posts == a.posts }
}
impl VObj for Post {
    open spec fn s_addr(&self) -> VPtr<Post> { paddr(*self) }
    open spec fn moved(a: Post, b: Post) -> bool { b.account == a.account && b.xact_ptr == a.xact_ptr && b.amount == a.amount && b.cost == a.cost && b.note == a.note }
}
/// references become pointers
pub trait VToPtr<T> { spec fn s_to_ptr(self) -> VPtr<T>; fn v_to_ptr(self) -> (r: VPtr<T>) ensures r == self.s_to_ptr(); }
impl VToPtr<Xact> for &Xact {
    open spec fn s_to_ptr(self) -> VPtr<Xact> { xaddr(*self) }
    #[verifier::external_body]
    fn v_to_ptr(self) -> (r: VPtr<Xact>) { unimplemented!() }
}
impl VToPtr<Xact> for VPtr<Xact> {
    open spec fn s_to_ptr(self) -> VPtr<Xact> { self }
    fn v_to_ptr(self) -> (r: VPtr<Xact>) { self }
}
impl VToPtr<Post> for &Post {
    open spec fn s_to_ptr(self) -> VPtr<Post> { paddr(*self) }
    #[verifier::external_body]
    fn v_to_ptr(self) -> (r: VPtr<Post>) { unimplemented!() }
}
impl Xact {
    /// self as *const Xact
    #[verifier::external_body]
    pub fn v_addr(&self) -> (r: VPtr<Xact>) ensures r == xaddr(*self) { unimplemented!() }
}
pub open spec fn otext(n: Option<String>) -> Option<Seq<char>> { match n { Some(s) => Some(s@), None => None } }
pub open spec fn odate(t: Seq<char>) -> Option<NaiveDate> { if t.len() == 0 { None } else { Some(date_val(t, "%Y-%m-%d"@)) } }
pub open spec fn odate_ok(t: Seq<char>) -> bool { t.len() == 0 || date_ok(t, "%Y-%m-%d"@) }
/// the header of a transaction as written (C08)
pub open spec fn head_is(x: Xact, date: Seq<char>, aux: Seq<char>, payee: Seq<char>) -> bool {
    x.date == odate(date) && x.aux_date == odate(aux) && x.payee@ == (if payee.len() == 0 { "Unknown Payee"@ } else { payee })
}
/// the same posting, except for where its transaction lies
pub open spec fn pkept(a: Post, b: Post) -> bool { b.account == a.account && b.amount == a.amount && b.cost == a.cost && b.note == a.note && b.v_id == a.v_id }
pub open spec fn pskept(a: Seq<Post>, b: Seq<Post>) -> bool { b.len() == a.len() && forall|k: int| 0 <= k < a.len() ==> pkept(a[k], #[trigger] b[k]) }
/// the same transaction, except for where it lies
pub open spec fn xkept(a: Xact, b: Xact) -> bool {
    b.date == a.date && b.aux_date == a.aux_date && b.payee == a.payee && b.note == a.note && b.journal == a.journal && pskept(a.posts@, b.posts@)
}
pub open spec fn all_to(s: Seq<Post>, p: VPtr<Xact>) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).xact_ptr == p }
/// every posting leads to its transaction
pub open spec fn linked(s: Seq<Xact>) -> bool { forall|i: int| 0 <= i < s.len() ==> all_to((#[trigger] s[i]).posts@, xaddr(s[i])) }
pub open spec fn xskept(a: Seq<Xact>, b: Seq<Xact>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> xkept(a[i], #[trigger] b[i]) }
/// the postings of one transaction which lie in the account
pub open spec fn plinks(s: Seq<Post>, a: VPtr<Account>) -> Seq<VPtr<Post>>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.last().account == a { plinks(s.drop_last(), a).push(paddr(s.last())) } else { plinks(s.drop_last(), a) } }
pub open spec fn in_heap(h: Heap, s: Seq<Post>) -> bool { forall|k: int| 0 <= k < s.len() ==> h.contains_key((#[trigger] s[k]).account) }
/// h2 is h with the postings entered in their accounts, in order (C15)
pub open spec fn entered(h: Heap, h2: Heap, s: Seq<Post>) -> bool {
    forall|a: VPtr<Account>| (#[trigger] h2.contains_key(a) <==> h.contains_key(a)) && (h.contains_key(a) ==> h2[a].parent == h[a].parent && h2[a].name == h[a].name && h2[a].accounts == h[a].accounts && h2[a].fullname == h[a].fullname && h2[a].posts@ == h[a].posts@ + plinks(s, a))
}
pub proof fn entered_step(h: Heap, h1: Heap, h2: Heap, s: Seq<Post>, k: int)
    requires 0 <= k < s.len(), entered(h, h1, s.take(k)), h1.contains_key(s[k].account), h2.dom() =~= h1.dom(),
        forall|a: VPtr<Account>| #[trigger] h1.contains_key(a) && a != s[k].account ==> h2[a] == h1[a],
        ({ let x = h1[s[k].account]; let y = h2[s[k].account]; y.parent == x.parent && y.name == x.name && y.accounts == x.accounts && y.fullname == x.fullname && y.posts@ == x.posts@.push(paddr(s[k])) }),
    ensures entered(h, h2, s.take(k + 1)),
{
    assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]);
    assert forall|a: VPtr<Account>| (#[trigger] h2.contains_key(a) <==> h.contains_key(a)) && (h.contains_key(a) ==> h2[a].parent == h[a].parent && h2[a].name == h[a].name && h2[a].accounts == h[a].accounts && h2[a].fullname == h[a].fullname && h2[a].posts@ == h[a].posts@ + plinks(s.take(k + 1), a)) by {
        assert(h1.contains_key(a) <==> h.contains_key(a)); assert(h2.contains_key(a) <==> h1.contains_key(a));
        if h.contains_key(a) && a == s[k].account { assert(h2[a].posts@ =~= h[a].posts@ + plinks(s.take(k + 1), a)); }
    }
}
pub proof fn entered_none(h: Heap) ensures entered(h, h, Seq::<Post>::empty()) { assert forall|a: VPtr<Account>| #[trigger] h.contains_key(a) implies h[a].posts@ == h[a].posts@ + plinks(Seq::<Post>::empty(), a) by { assert(h[a].posts@ =~= h[a].posts@ + plinks(Seq::<Post>::empty(), a)); } }
// ---- one posting (C12, C14)
pub open spec fn amount_is(a: Option<Amount>, pool: CommodityPool, q: Seq<char>, sym: Seq<char>) -> bool {
    (a is Some <==> q.len() > 0) && (a is Some ==> has_sym(pool, sym) && av(a->0) == (dec_val(q), sym_ptr(pool, sym)))
}
pub open spec fn cost_is(c: Option<Amount>, a: Option<Amount>, pool: CommodityPool, t: PT) -> bool {
    (c is Some <==> t.cost_quantity.len() > 0 && a is Some)
    && (c is Some ==> has_sym(pool, t.cost_symbol) && ({ let y = sym_ptr(pool, t.cost_symbol); av(c->0) == (if t.is_per_unit { (dec_val(t.cost_quantity) * qv((a->0).quantity), ccomb(y, (a->0).commodity)) } else { (dec_val(t.cost_quantity), y) }) }))
}
pub open spec fn post_refused(s: Option<PT>) -> bool {
    s is None || s->0.account.len() == 0 || (s->0.quantity.len() > 0 && !dec_ok(s->0.quantity)) || lot_bad(s->0.price_date, s->0.price_quantity) || (s->0.cost_quantity.len() > 0 && s->0.quantity.len() > 0 && !dec_ok(s->0.cost_quantity))
}
/// the lot information is kept under the commodity, unless there is some already
pub open spec fn lot_kept(a: CommodityPool, b: CommodityPool, t: PT) -> bool {
    if t.symbol.len() > 0 && (t.price_quantity.len() > 0 || t.price_date.len() > 0) && !a.annotated_commodities@.contains_key(t.symbol) {
        b.annotated_commodities@.contains_key(t.symbol) && b.annotated_commodities@.dom() =~= a.annotated_commodities@.dom().insert(t.symbol) && lot_of(b, t.price_date, t.price_quantity, t.price_commodity, b.annotated_commodities@[t.symbol])
    } else { b.annotated_commodities@ =~= a.annotated_commodities@ }
}
/// what a posting leaves in the pool: its symbols and its lot, no prices
pub open spec fn post_pool(a: CommodityPool, b: CommodityPool, t: PT) -> bool {
    pool_wf(b) && pool_ext(a, b) && b.commodity_history.0.edges() == a.commodity_history.0.edges() && lot_kept(a, b, t)
    && (forall|s: Seq<char>| #[trigger] b.commodities@.contains_key(s) ==> a.commodities@.contains_key(s) || (s.len() > 0 && (s == t.symbol || s == t.price_commodity || s == t.cost_symbol)))
}
/// the same transaction with one more posting; growing may have moved the earlier ones
pub open spec fn one_more(a: Xact, b: Xact) -> bool {
    b.date == a.date && b.aux_date == a.aux_date && b.payee == a.payee && b.note == a.note && b.journal == a.journal && b.v_id == a.v_id && b.posts@.len() == a.posts@.len() + 1
    && forall|k: int| 0 <= k < a.posts@.len() ==> #[trigger] b.posts@[k] == a.posts@[k] || Post::moved(a.posts@[k], b.posts@[k])
}
pub open spec fn only_at(a: Seq<Xact>, b: Seq<Xact>, k: int) -> bool { b.len() == a.len() && 0 <= k < a.len() && forall|i: int| 0 <= i < a.len() && i != k ==> #[trigger] b[i] == a[i] }
/// the posting as written
pub open spec fn post_is(p: Post, t: PT, h: Heap, m: VPtr<Account>, pool: CommodityPool) -> bool {
    a_find(h, m, t.account) == Some(p.account) && amount_is(p.amount, pool, t.quantity, t.symbol) && cost_is(p.cost, p.amount, pool, t)
}
pub open spec fn there<T: VObj>(s: Seq<T>, p: VPtr<T>) -> bool { exists|i: int| is_at(s, p, i) }
