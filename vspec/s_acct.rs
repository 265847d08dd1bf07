// ---- accounts: objects on the heap, reached through pointers (C05). AccountD is the struct Account of the source, Account only names it in pointers.
#[verifier::external_body]
pub struct Account { x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OnceCell<T> { x: core::marker::PhantomData<T> }
impl OnceCell<String> {
    pub uninterp spec fn view(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ is None { unimplemented!() }
    /// get, the text by value
    #[verifier::external_body]
    pub fn v_get(&self) -> (r: Option<String>) ensures r is Some <==> self@ is Some, r is Some ==> r->0@ == self@->0 { unimplemented!() }
    /// get_or_init, the text by value
    #[verifier::external_body]
    pub fn v_get_or_init(&mut self, s: String) -> (r: String) ensures final(self)@ == (if old(self)@ is Some { old(self)@ } else { Some(s@) }), r@ == final(self)@->0 { unimplemented!() }
}
pub trait VKeyV { spec fn k_chars(self) -> Seq<char>; }
impl VKeyV for &str { open spec fn k_chars(self) -> Seq<char> { self@ } }
impl VKeyV for &String { open spec fn k_chars(self) -> Seq<char> { self@ } }
impl VKeyV for String { open spec fn k_chars(self) -> Seq<char> { self@ } }
impl<V: Copy> HashMap<String, V> {
    /// get, the pointer by value
    #[verifier::external_body]
    pub fn v_get<Q: VKeyV>(&self, k: Q) -> (r: Option<V>)
        ensures r is Some <==> self@.contains_key(k.k_chars()), r is Some ==> r->0 == self@[k.k_chars()] { unimplemented!() }
}
/// the accounts: what lies at which address. An account is allocated once, never moved and never freed while the journal lives.
#[verifier::external_body]
pub struct AHeap { x: u8 }
pub type Heap = Map<VPtr<Account>, AccountD>;
/// when the account was allocated
pub uninterp spec fn ord(p: VPtr<Account>) -> nat;
impl AHeap {
    pub uninterp spec fn view(&self) -> Heap;
    pub open spec fn s_at(&self, p: VPtr<Account>) -> AccountD { self@[p] }
    #[verifier::external_body]
    pub fn at(&self, p: VPtr<Account>) -> (r: &AccountD) requires self@.contains_key(p) ensures *r == self@[p] { unimplemented!() }
    #[verifier::external_body]
    pub fn at_mut(&mut self, p: VPtr<Account>) -> (r: &mut AccountD) requires old(self)@.contains_key(p) ensures *r == old(self)@[p], final(self)@ == old(self)@.insert(p, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc(&mut self, a: AccountD) -> (r: VPtr<Account>)
        ensures r != nullp::<Account>(), !old(self)@.contains_key(r), forall|q: VPtr<Account>| #[trigger] old(self)@.contains_key(q) ==> ord(q) < ord(r), final(self)@ == old(self)@.insert(r, a) { unimplemented!() }
}
/// first part of a name, and what follows its separator
pub open spec fn nm_first(s: Seq<char>) -> Seq<char> { let k = first_idx(s, p_is(':')); s.subrange(0, k) }
pub open spec fn nm_rest(s: Seq<char>) -> Seq<char> { let k = first_idx(s, p_is(':')); if k < s.len() { s.subrange(k + 1, s.len() as int) } else { Seq::empty() } }
pub open spec fn kids(h: Heap, p: VPtr<Account>) -> Map<Seq<char>, VPtr<Account>> { h[p].accounts@ }
/// the links of an account and of its sub-accounts agree
pub open spec fn kid_ok(h: Heap, p: VPtr<Account>, k: Seq<char>) -> bool {
    let c = kids(h, p)[k];
    h.contains_key(c) && c != nullp::<Account>() && h[c].parent == p && h[c].name@ == k && !k.contains(':') && ord(p) < ord(c)
}
pub open spec fn node_ok(h: Heap, p: VPtr<Account>) -> bool {
    p != nullp::<Account>() && (forall|k: Seq<char>| #[trigger] kids(h, p).contains_key(k) ==> kid_ok(h, p, k))
    && (h[p].parent != nullp::<Account>() ==> h.contains_key(h[p].parent) && kids(h, h[p].parent).contains_key(h[p].name@) && kids(h, h[p].parent)[h[p].name@] == p)
}
pub open spec fn heap_ok(h: Heap) -> bool { forall|p: VPtr<Account>| #[trigger] h.contains_key(p) ==> node_ok(h, p) }
/// the account under the name, seen from p
pub open spec fn a_find(h: Heap, p: VPtr<Account>, s: Seq<char>) -> Option<VPtr<Account>>
    decreases s.len()
    via a_find_dec
{
    if !kids(h, p).contains_key(nm_first(s)) { None }
    else if nm_rest(s).len() == 0 { Some(kids(h, p)[nm_first(s)]) }
    else { a_find(h, kids(h, p)[nm_first(s)], nm_rest(s)) }
}
#[via_fn]
proof fn a_find_dec(h: Heap, p: VPtr<Account>, s: Seq<char>) { rest_shorter(s); }
pub proof fn rest_shorter(s: Seq<char>)
    ensures nm_rest(s).len() > 0 ==> nm_rest(s).len() < s.len(), !nm_first(s).contains(':'),
{ first_idx_props(s, p_is(':')); assert forall|j: int| 0 <= j < nm_first(s).len() implies nm_first(s)[j] != ':' by { assert(!p_is(':')(s[j])); } }
/// everything but the sub-accounts
pub open spec fn same_acct(a: AccountD, b: AccountD) -> bool { b.parent == a.parent && b.name == a.name && b.posts == a.posts && b.fullname == a.fullname }
/// h1 is h with the new account c, named f, below p
pub open spec fn acct_new(h: Heap, h1: Heap, p: VPtr<Account>, f: Seq<char>, c: VPtr<Account>) -> bool {
    c != nullp::<Account>() && !h.contains_key(c) && (forall|q: VPtr<Account>| #[trigger] h.contains_key(q) ==> ord(q) < ord(c))
    && (forall|q: VPtr<Account>| #[trigger] h1.contains_key(q) <==> h.contains_key(q) || q == c)
    && (forall|q: VPtr<Account>| #[trigger] h.contains_key(q) && q != p ==> h1[q] == h[q])
    && same_acct(h[p], h1[p]) && kids(h1, p) == kids(h, p).insert(f, c)
    && h1[c].parent == p && h1[c].name@ == f && kids(h1, c) == Map::<Seq<char>, VPtr<Account>>::empty() && h1[c].posts@.len() == 0 && h1[c].fullname@ is None
}
/// registering the name s below p gives r: the accounts of the path which are missing are made, no others
pub open spec fn a_reg(h: Heap, h2: Heap, p: VPtr<Account>, s: Seq<char>, r: VPtr<Account>) -> bool
    decreases s.len()
    via a_reg_dec
{
    if kids(h, p).contains_key(nm_first(s)) {
        let c = kids(h, p)[nm_first(s)];
        if nm_rest(s).len() == 0 { h2 == h && r == c } else { a_reg(h, h2, c, nm_rest(s), r) }
    } else {
        exists|c: VPtr<Account>, h1: Heap| #[trigger] acct_new(h, h1, p, nm_first(s), c) && (if nm_rest(s).len() == 0 { h2 == h1 && r == c } else { a_reg(h1, h2, c, nm_rest(s), r) })
    }
}
#[via_fn]
proof fn a_reg_dec(h: Heap, h2: Heap, p: VPtr<Account>, s: Seq<char>, r: VPtr<Account>) { rest_shorter(s); }
/// a name without a separator is its own first part
pub proof fn nm_whole(s: Seq<char>)
    ensures !s.contains(':') ==> nm_first(s) == s && nm_rest(s).len() == 0,
{ first_idx_props(s, p_is(':')); if !s.contains(':') { let k = first_idx(s, p_is(':')); if k < s.len() { assert(p_is(':')(s[k])); assert(s[k] == ':'); } assert(s.subrange(0, s.len() as int) =~= s); } }
pub proof fn acct_new_ok(h: Heap, h1: Heap, p: VPtr<Account>, f: Seq<char>, c: VPtr<Account>)
    requires heap_ok(h), h.contains_key(p), acct_new(h, h1, p, f, c), !f.contains(':'), !kids(h, p).contains_key(f),
    ensures heap_ok(h1),
{
    assert forall|q: VPtr<Account>| #[trigger] h1.contains_key(q) implies node_ok(h1, q) by {
        if q != c {
            assert(node_ok(h, q));
            assert forall|k: Seq<char>| #[trigger] kids(h1, q).contains_key(k) implies kid_ok(h1, q, k) by {
                if q == p && k == f { } else { assert(kids(h, q).contains_key(k)); assert(kid_ok(h, q, k)); }
            }
            if h[q].parent != nullp::<Account>() && h[q].parent == p { assert(kids(h, p).contains_key(h[q].name@)); }
        } else {
            assert forall|k: Seq<char>| #[trigger] kids(h1, q).contains_key(k) implies kid_ok(h1, q, k) by { }
        }
    }
}
