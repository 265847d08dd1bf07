// ---- reading a text (C14, C15)
/// the first line, with its end; and what follows it
pub open spec fn ln(t: Seq<char>) -> Seq<char> { let k = first_idx(t, p_is('\n')); if k < t.len() { tk(t, k + 1) } else { t } }
pub open spec fn after(t: Seq<char>) -> Seq<char> { dr(t, ln(t).len() as int) }
pub proof fn ln_props(t: Seq<char>)
    ensures t.len() > 0 ==> 0 < ln(t).len() <= t.len() && after(t).len() < t.len(), t.len() == 0 ==> ln(t).len() == 0 && after(t) =~= t,
{ first_idx_props(t, p_is('\n')); }
#[verifier::external_body]
pub struct VReader { x: u8 }
#[verifier::external_body]
pub struct VIoError { x: u8 }
impl VReader {
    /// what has not been read yet
    pub uninterp spec fn rest(&self) -> Seq<char>;
    /// BufRead::read_line; reading does not fail
    #[verifier::external_body]
    pub fn read_line(&mut self, buffer: &mut String) -> (r: Result<usize, VIoError>)
        ensures r is Ok, r->Ok_0 == 0 <==> old(self).rest().len() == 0, final(buffer)@ == old(buffer)@ + ln(old(self).rest()), final(self).rest() == after(old(self).rest()) { unimplemented!() }
}
/// the words of a text
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len() via words_dec
{ let t = tstart(s); if t.len() == 0 { Seq::empty() } else { let k = first_idx(t, p_ws()); seq![tk(t, k)] + words(dr(t, k)) } }
#[via_fn]
proof fn words_dec(s: Seq<char>) { let t = tstart(s); tstart_len(s); if t.len() > 0 { tstart_nows2(s); first_idx_props(t, p_ws()); assert(first_idx(t, p_ws()) > 0); } }
pub proof fn tstart_nows2(s: Seq<char>)
    ensures tstart(s).len() > 0 ==> !is_ws(tstart(s)[0]),
    decreases s.len(),
{ if s.len() > 0 && is_ws(s[0]) { tstart_nows2(s.subrange(1, s.len() as int)); } }
/// the first word is not empty, and starts the text unless a blank does
pub proof fn word_first(s: Seq<char>)
    ensures words(s).len() > 0 ==> words(s)[0].len() > 0 && words(s)[0][0] == tstart(s)[0], s.len() > 0 && !is_ws(s[0]) ==> words(s).len() > 0 && words(s)[0][0] == s[0],
{ let t = tstart(s); if t.len() > 0 { tstart_nows2(s); first_idx_props(t, p_ws()); assert(first_idx(t, p_ws()) > 0); } }
#[verifier::external_body]
pub struct VWords<'a> { x: &'a str }
impl<'a> VWords<'a> {
    pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@, Some(w) => old(self)@.len() > 0 && w@ == old(self)@[0] && final(self)@ == old(self)@.skip(1) } { unimplemented!() }
}
#[verifier::external_body]
pub fn v_words<'a>(s: &'a str) -> (r: VWords<'a>) ensures r@ == words(s@) { unimplemented!() }

// ---- what is written
pub struct PW { pub t: PT, pub note: Option<Seq<char>> }
pub struct XW { pub date: Seq<char>, pub aux: Seq<char>, pub payee: Seq<char>, pub note: Option<Seq<char>>, pub posts: Seq<PW> }
pub open spec fn blank(l: Seq<char>) -> bool { tstart(l).len() == 0 }
pub proof fn blank_trim(l: Seq<char>) ensures ttrim(l).len() == 0 <==> blank(l) { tstart_nows2(l); tend_keeps(tstart(l)); }
proof fn tend_keeps(s: Seq<char>) ensures s.len() > 0 && !is_ws(s[0]) ==> tend(s).len() > 0, s.len() == 0 ==> tend(s).len() == 0 decreases s.len() { if s.len() > 0 && is_ws(s[s.len() - 1]) { let u = s.subrange(0, s.len() - 1); tend_keeps(u); if u.len() > 0 { assert(u[0] == s[0]); } } }
/// trimming both ends first does not change what follows the first character
proof fn tend_tail(x: Seq<char>)
    requires x.len() > 0, !is_ws(x[0]),
    ensures tend(x).len() > 0, tend(x)[0] == x[0], dr(tend(x), 1) == tend(dr(x, 1)),
    decreases x.len(),
{
    if is_ws(x[x.len() - 1]) {
        let u = x.subrange(0, x.len() - 1);
        assert(u[0] == x[0]);
        tend_tail(u);
        assert(dr(x, 1).subrange(0, dr(x, 1).len() - 1) =~= dr(u, 1));
        assert(dr(x, 1)[dr(x, 1).len() - 1] == x[x.len() - 1]);
    } else if x.len() > 1 { assert(dr(x, 1)[dr(x, 1).len() - 1] == x[x.len() - 1]); }
}
/// a leading blank goes with the rest, or stays
proof fn tend_head(y: Seq<char>)
    requires y.len() > 0, is_ws(y[0]),
    ensures tend(dr(y, 1)).len() == 0 ==> tend(y).len() == 0, tend(dr(y, 1)).len() > 0 ==> tend(y).len() > 0 && tend(y)[0] == y[0] && dr(tend(y), 1) == tend(dr(y, 1)),
    decreases y.len(),
{
    let u = y.subrange(0, y.len() - 1);
    if is_ws(y[y.len() - 1]) {
        if u.len() > 0 {
            assert(u[0] == y[0]);
            tend_head(u);
            assert(dr(y, 1).subrange(0, dr(y, 1).len() - 1) =~= dr(u, 1));
            assert(dr(y, 1)[dr(y, 1).len() - 1] == y[y.len() - 1]);
        } else { assert(tend(u) == u); }
    } else { assert(y.len() > 1); assert(dr(y, 1)[dr(y, 1).len() - 1] == y[y.len() - 1]); }
}
proof fn trims_commute(y: Seq<char>)
    ensures tstart(tend(y)) == tend(tstart(y)),
    decreases y.len(),
{
    if y.len() > 0 && is_ws(y[0]) {
        trims_commute(dr(y, 1));
        tend_head(y);
    } else if y.len() > 0 { tend_tail(y); }
}
pub proof fn note_trims(l: Seq<char>)
    requires tstart(l).len() > 0,
    ensures ttrim(l).len() > 0, ttrim(l)[0] == tstart(l)[0], tstart(dr(ttrim(l), 1)) == ttrim(dr(tstart(l), 1)), tend(dr(tstart(l), 1)) == dr(ttrim(l), 1), ttrim(dr(ttrim(l), 1)) == ttrim(dr(tstart(l), 1)),
{
    let x = tstart(l);
    tstart_nows2(l);
    tend_tail(x);
    trims_commute(dr(x, 1));
    let t = tstart(dr(x, 1));
    tend_twice(t);
}
proof fn tend_twice(t: Seq<char>)
    ensures tend(tend(t)) == tend(t),
    decreases t.len(),
{ if t.len() > 0 && is_ws(t[t.len() - 1]) { tend_twice(t.subrange(0, t.len() - 1)); } }
/// the header of a transaction
pub open spec fn head(l: Seq<char>) -> XW { let h = s_header(l); XW { date: h.0, aux: h.1, payee: h.2, note: if h.3.len() == 0 { None } else { Some(h.3) }, posts: Seq::empty() } }
pub open spec fn head_bad(l: Seq<char>) -> bool { l.len() == 0 || !odate_ok(s_header(l).0) || !odate_ok(s_header(l).1) }
/// a note goes to the posting above it, or to the transaction when there is none
pub open spec fn noted(x: XW, n: Seq<char>) -> XW {
    if n.len() == 0 { x } else if x.posts.len() == 0 { XW { note: Some(n), ..x } } else { XW { posts: x.posts.update(x.posts.len() - 1, PW { note: Some(n), ..x.posts.last() }), ..x } }
}
/// one line of a transaction
pub open spec fn line(x: XW, l: Seq<char>) -> XW {
    let i = tstart(l);
    if i[0] == ';' { noted(x, ttrim(dr(i, 1))) } else { XW { posts: x.posts.push(PW { t: s_post(i)->0, note: None }), ..x } }
}
pub open spec fn ends(l: Seq<char>) -> bool { blank(l) || l[0] == '\r' || l[0] == '\n' }
/// the lines of a transaction, up to a blank one
pub open spec fn body(x: XW, t: Seq<char>) -> (XW, Seq<char>)
    decreases t.len() via body_dec
{ if t.len() == 0 { (x, t) } else if ends(ln(t)) { (x, after(t)) } else { body(line(x, ln(t)), after(t)) } }
#[via_fn]
proof fn body_dec(x: XW, t: Seq<char>) { ln_props(t); }
pub open spec fn line_bad(l: Seq<char>) -> bool { !blank(l) && (l[0] != ' ' || (tstart(l)[0] != ';' && post_refused(s_post(tstart(l))))) }
pub open spec fn body_bad(t: Seq<char>) -> bool
    decreases t.len() via body_bad_dec
{ t.len() > 0 && (line_bad(ln(t)) || (!ends(ln(t)) && body_bad(after(t)))) }
#[via_fn]
proof fn body_bad_dec(t: Seq<char>) { ln_props(t); }
pub proof fn body_len(x: XW, t: Seq<char>) ensures body(x, t).1.len() <= t.len() decreases t.len() { ln_props(t); if t.len() > 0 && !ends(ln(t)) { body_len(line(x, ln(t)), after(t)); } }
/// completing the transaction can be refused
pub open spec fn may_refuse(w: XW) -> bool {
    exists|s: Seq<Post>, h: Heap, m: VPtr<Account>, pool: CommodityPool| #[trigger] posts_of(s, w.posts, h, m, pool) && (fin_open(s) || fin_refused(s, w.date.len() > 0))
}
/// what an included file holds, and whether reading it is refused
pub uninterp spec fn inc_items(name: Seq<char>) -> Seq<XW>;
pub uninterp spec fn inc_bad(name: Seq<char>) -> bool;
pub open spec fn is_comment(c: char) -> bool { c == ';' || c == '#' || c == '*' || c == '|' }
pub open spec fn is_other(l: Seq<char>) -> bool { !is_comment(l[0]) && l[0] != '-' && !is_dig(l[0]) && l[0] != ' ' && l[0] != '\t' }
pub open spec fn is_include(l: Seq<char>) -> bool { words(l)[0] == "include"@ }
/// one line of the text, outside transactions: what it holds, and what follows
pub open spec fn dir(l: Seq<char>, t: Seq<char>) -> (Seq<XW>, Seq<char>) {
    if blank(l) { (Seq::empty(), t) }
    else if is_dig(l[0]) { let b = body(head(l), t); (seq![b.0], b.1) }
    else if is_other(l) && is_include(l) { (inc_items(words(l)[1]), t) }
    else { (Seq::empty(), t) }
}
pub open spec fn gen_bad(l: Seq<char>) -> bool { let w = words(l); w.len() == 0 || w[0][0] != 'i' || w[0] == "import"@ || (w[0] == "include"@ && (w.len() < 2 || inc_bad(w[1]))) }
pub open spec fn dir_bad(l: Seq<char>, t: Seq<char>) -> bool {
    !blank(l) && (if is_dig(l[0]) { head_bad(l) || body_bad(t) || may_refuse(body(head(l), t).0) }
        else if l[0] == ' ' || l[0] == '\t' { true }
        else { is_other(l) && (gen_bad(l) || (!is_include(l) && (!price_line_ok(l) || clen(l[0]) != 1))) })
}
pub proof fn dir_len(l: Seq<char>, t: Seq<char>) ensures dir(l, t).1.len() <= t.len() { body_len(head(l), t); }
/// the transactions of a text
pub open spec fn items(t: Seq<char>) -> Seq<XW>
    decreases t.len() via items_dec
{ if t.len() == 0 { Seq::empty() } else { let d = dir(ln(t), after(t)); d.0 + items(d.1) } }
#[via_fn]
proof fn items_dec(t: Seq<char>) { ln_props(t); dir_len(ln(t), after(t)); }
pub open spec fn items_bad(t: Seq<char>) -> bool
    decreases t.len() via items_bad_dec
{ t.len() > 0 && (dir_bad(ln(t), after(t)) || items_bad(dir(ln(t), after(t)).1)) }
#[via_fn]
proof fn items_bad_dec(t: Seq<char>) { ln_props(t); dir_len(ln(t), after(t)); }

// ---- what is in the journal
pub open spec fn posts_of(s: Seq<Post>, w: Seq<PW>, h: Heap, m: VPtr<Account>, pool: CommodityPool) -> bool {
    s.len() == w.len() && forall|k: int| 0 <= k < s.len() ==> post_is(#[trigger] s[k], w[k].t, h, m, pool) && otext(s[k].note) == w[k].note
}
/// f is the postings s, completed
pub open spec fn completed(s: Seq<Post>, f: Seq<Post>) -> bool {
    f.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] f[i]).account == s[i].account && otext(f[i].note) == otext(s[i].note) && (s[i].amount is Some ==> oav(f[i].amount) == oav(s[i].amount)))
    && (!fin_open(s) ==> fin_vals(s, f))
}
pub open spec fn posts_are(f: Seq<Post>, w: Seq<PW>, h: Heap, m: VPtr<Account>, pool: CommodityPool) -> bool { exists|s: Seq<Post>| #[trigger] posts_of(s, w, h, m, pool) && completed(s, f) }
/// the transaction as written, completed
pub open spec fn x_is(x: Xact, w: XW, h: Heap, m: VPtr<Account>, pool: CommodityPool) -> bool {
    head_is(x, w.date, w.aux, w.payee) && otext(x.note) == w.note && posts_are(x.posts@, w.posts, h, m, pool)
}
/// the transaction as written so far
pub open spec fn x_so_far(x: Xact, w: XW, h: Heap, m: VPtr<Account>, pool: CommodityPool) -> bool {
    head_is(x, w.date, w.aux, w.payee) && otext(x.note) == w.note && posts_of(x.posts@, w.posts, h, m, pool)
}
/// the postings of the journal in the account, in order
pub open spec fn links(s: Seq<Xact>, a: VPtr<Account>) -> Seq<VPtr<Post>>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { links(s.drop_last(), a) + plinks(s.last().posts@, a) } }
pub open spec fn entries(h: Heap, s: Seq<Xact>) -> bool { forall|a: VPtr<Account>| #[trigger] h.contains_key(a) ==> h[a].posts@ == links(s, a) }
pub open spec fn homed(h: Heap, s: Seq<Xact>) -> bool { forall|i: int| 0 <= i < s.len() ==> in_heap(h, (#[trigger] s[i]).posts@) }
pub open spec fn paid(pool: CommodityPool, s: Seq<Xact>) -> bool { forall|i: int| 0 <= i < s.len() ==> posts_ok(pool, (#[trigger] s[i]).posts@) }
/// all links of the journal are right; the postings of the first n transactions are entered in their accounts
pub open spec fn jok(j: Journal, h: Heap, n: int) -> bool {
    one_root(h, j.master) && names_ok(h) && pool_wf(j.commodity_pool) && distinct(j.xacts@) && linked(j.xacts@) && homed(h, j.xacts@) && paid(j.commodity_pool, j.xacts@) && entries(h, j.xacts@.take(n))
}
pub open spec fn jinv(j: Journal, h: Heap) -> bool { jok(j, h, j.xacts@.len() as int) }
/// the accounts there were are where they were; there may be more
pub open spec fn grew(h: Heap, h2: Heap) -> bool {
    forall|q: VPtr<Account>| #[trigger] h.contains_key(q) ==> h2.contains_key(q) && h2[q].parent == h[q].parent && h2[q].name == h[q].name && (forall|k: Seq<char>| #[trigger] kids(h, q).contains_key(k) ==> kids(h2, q).contains_key(k) && kids(h2, q)[k] == kids(h, q)[k])
}
/// the journal, after what it held, holds exactly the transactions w in addition
pub open spec fn gains(j: Journal, h: Heap, j2: Journal, h2: Heap, w: Seq<XW>) -> bool {
    j2.master == j.master && grew(h, h2) && pool_ext(j.commodity_pool, j2.commodity_pool) && xskept(j.xacts@, j2.xacts@) && j2.xacts@.len() == j.xacts@.len() + w.len()
    && forall|i: int| j.xacts@.len() <= i < j2.xacts@.len() ==> x_is(#[trigger] j2.xacts@[i], w[i - j.xacts@.len()], h2, j.master, j2.commodity_pool)
}
