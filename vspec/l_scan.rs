// ---- C07: a posting line written from its parts is scanned into exactly these parts (over the contracts)
pub open spec fn blanks(b: Seq<char>) -> bool { forall|j: int| 0 <= j < b.len() ==> is_ws(#[trigger] b[j]) }
pub open spec fn num_ok(q: Seq<char>) -> bool { q.len() > 0 && forall|j: int| 0 <= j < q.len() ==> is_num(#[trigger] q[j]) }
pub open spec fn sym_ok(y: Seq<char>) -> bool { (forall|j: int| 0 <= j < y.len() ==> !is_symend(#[trigger] y[j])) && (y.len() > 0 ==> !is_num(y[0])) }
/// a written amount: number first or symbol first, blanks b between
pub struct AmtW { pub nf: bool, pub q: Seq<char>, pub b: Seq<char>, pub y: Seq<char> }
pub open spec fn amt_text(w: AmtW) -> Seq<char> { if w.nf { w.q + (w.b + w.y) } else { w.y + (w.b + w.q) } }
pub open spec fn amt_wf(w: AmtW) -> bool {
    num_ok(w.q) && sym_ok(w.y) && blanks(w.b)
    && (if w.nf { w.y.len() == 0 ==> w.b.len() == 0 } else { w.y.len() > 0 && (w.b.len() > 0 || is_symend(w.q[0])) })
}
/// what may follow an amount: blanks b and then t
pub open spec fn tail_ok(w: AmtW, b: Seq<char>, t: Seq<char>) -> bool {
    blanks(b) && (t.len() == 0 || (!is_ws(t[0]) && !is_num(t[0])))
    && (w.nf && w.y.len() > 0 ==> b.len() > 0 || t.len() == 0 || is_symend(t[0]))
    && (w.nf && w.y.len() == 0 ==> t.len() == 0 || is_symend(t[0]))
}
pub proof fn tstart_app(b: Seq<char>, r: Seq<char>)
    requires blanks(b), r.len() == 0 || !is_ws(r[0]),
    ensures tstart(b + r) == r,
    decreases b.len(),
{
    if b.len() == 0 { assert(b + r =~= r); }
    else {
        let b2 = b.subrange(1, b.len() as int);
        assert((b + r)[0] == b[0]);
        assert((b + r).subrange(1, (b + r).len() as int) =~= b2 + r);
        assert forall|j: int| 0 <= j < b2.len() implies is_ws(#[trigger] b2[j]) by { assert(b2[j] == b[j + 1]); }
        tstart_app(b2, r);
    }
}
pub proof fn first_app(a: Seq<char>, r: Seq<char>, p: spec_fn(char) -> bool)
    requires forall|j: int| 0 <= j < a.len() ==> !p(#[trigger] a[j]), r.len() == 0 || p(r[0]),
    ensures first_idx(a + r, p) == a.len(), tk(a + r, a.len() as int) == a, dr(a + r, a.len() as int) == r,
{
    let s = a + r;
    assert forall|j: int| 0 <= j < a.len() implies !p(#[trigger] s[j]) by { assert(s[j] == a[j]); }
    if r.len() > 0 { assert(s[a.len() as int] == r[0]); }
    first_idx_is(s, p, a.len() as int);
    assert(tk(s, a.len() as int) =~= a); assert(dr(s, a.len() as int) =~= r);
}
pub proof fn quantity_rt(q: Seq<char>, r: Seq<char>)
    requires num_ok(q), r.len() == 0 || !is_num(r[0]),
    ensures s_quantity(q + r) == (q, tstart(r)),
{ first_app(q, r, p_nonnum()); }
pub proof fn symbol_rt(b: Seq<char>, y: Seq<char>, r: Seq<char>)
    requires blanks(b), sym_ok(y), r.len() == 0 || is_symend(r[0]), y.len() == 0 ==> r.len() == 0 || !is_ws(r[0]),
    ensures s_symbol(b + (y + r)) == (y, tstart(r)),
{
    let yr = y + r;
    if yr.len() > 0 { if y.len() > 0 { assert(yr[0] == y[0]); assert(!is_symend(y[0])); } else { assert(yr[0] == r[0]); } }
    tstart_app(b, yr);
    first_app(y, r, p_symend());
}
pub proof fn blank_head(b: Seq<char>, t: Seq<char>)
    requires blanks(b),
    ensures b.len() > 0 ==> is_ws((b + t)[0]), b.len() == 0 ==> b + t == t,
{ if b.len() == 0 { assert(b + t =~= t); } else { assert((b + t)[0] == b[0]); } }
/// an amount is split into its quantity and symbol, whatever the blanks and what follows
pub proof fn amount_rt(b0: Seq<char>, w: AmtW, b: Seq<char>, t: Seq<char>)
    requires blanks(b0), amt_wf(w), tail_ok(w, b, t),
    ensures s_amount(b0 + (amt_text(w) + (b + t))) == (w.q, w.y, t), tstart(b0 + (amt_text(w) + (b + t))).len() > 0,
{
    let r = b + t;
    blank_head(b, t);
    tstart_app(b, t);
    let x = amt_text(w) + r;
    if w.nf {
        assert(x =~= w.q + (w.b + (w.y + r)));
        assert(x[0] == w.q[0]); assert(is_num(w.q[0])); assert(!is_ws(w.q[0]));
        tstart_app(b0, x);
        let z = w.b + (w.y + r);
        blank_head(w.b, w.y + r);
        if w.y.len() > 0 {
            if w.b.len() == 0 { assert((w.y + r)[0] == w.y[0]); }
            quantity_rt(w.q, z);
            // the quantity's remainder has no leading blanks
            assert(!is_symend(w.y[0]));
            assert((w.y + r)[0] == w.y[0]);
            tstart_app(w.b, w.y + r);
            assert(tstart(z) == w.y + r);
            assert(es() + (w.y + r) =~= w.y + r);
            symbol_rt(es(), w.y, r);
        } else {
            assert(w.b =~= es()); assert(w.y =~= es());
            assert(z =~= r);
            if b.len() > 0 { assert(is_ws(r[0])); }
            quantity_rt(w.q, r);
            assert(tstart(r) == t);
            assert(es() + (w.y + t) =~= t);
            symbol_rt(es(), w.y, t);
            if t.len() > 0 { assert(t =~= es() + t); tstart_app(es(), t); }
        }
    } else {
        assert(x =~= w.y + (w.b + (w.q + r)));
        assert(x[0] == w.y[0]); assert(!is_symend(w.y[0])); assert(!is_num(w.y[0]));
        tstart_app(b0, x);
        let z = w.b + (w.q + r);
        blank_head(w.b, w.q + r);
        assert((w.q + r)[0] == w.q[0]); assert(is_num(w.q[0])); assert(!is_ws(w.q[0]));
        assert(es() + (w.y + z) =~= x);
        symbol_rt(es(), w.y, z);
        tstart_app(w.b, w.q + r);
        quantity_rt(w.q, r);
    }
}

pub open spec fn chr(c: char) -> Seq<char> { seq![c] }
/// a lot price: { blanks amount blanks } blanks
pub struct LotW { pub bi: Seq<char>, pub w: AmtW, pub bo: Seq<char>, pub ba: Seq<char> }
pub open spec fn lot_text(l: LotW) -> Seq<char> { chr('{') + ((l.bi + (amt_text(l.w) + (l.bo + es()))) + (chr('}') + l.ba)) }
pub open spec fn lot_wf(l: LotW) -> bool { blanks(l.bi) && amt_wf(l.w) && blanks(l.bo) && blanks(l.ba) && !l.w.y.contains('}') }
/// a lot date: [ date ] blanks
pub struct LotD { pub d: Seq<char>, pub ba: Seq<char> }
pub open spec fn lotd_text(l: LotD) -> Seq<char> { chr('[') + (l.d + (chr(']') + l.ba)) }
pub open spec fn lotd_wf(l: LotD) -> bool { l.d.len() > 0 && blanks(l.ba) && forall|j: int| 0 <= j < l.d.len() ==> #[trigger] l.d[j] != ']' && l.d[j] != '=' && !is_ws(l.d[j]) }
pub open spec fn plain(t: Seq<char>) -> bool { t.len() == 0 || !is_ws(t[0]) }
pub open spec fn no_annot(t: Seq<char>) -> bool { t.len() == 0 || (t[0] != '{' && t[0] != '[' && t[0] != '(') }

pub proof fn until_rt(a: Seq<char>, c: char, r: Seq<char>)
    requires forall|j: int| 0 <= j < a.len() ==> #[trigger] a[j] != c,
    ensures s_until(a + (chr(c) + r), c) == (a, chr(c) + r), (a + (chr(c) + r)).contains(c), dr(chr(c) + r, 1) == r,
{
    first_app(a, chr(c) + r, p_is(c));
    assert((a + (chr(c) + r))[a.len() as int] == c);
    assert(dr(chr(c) + r, 1) =~= r);
}
pub proof fn amt_no(w: AmtW, c: char)
    requires amt_wf(w), !w.y.contains(c), !is_num(c), !is_ws(c),
    ensures forall|j: int| 0 <= j < amt_text(w).len() ==> #[trigger] amt_text(w)[j] != c,
{
    let x = amt_text(w);
    assert forall|j: int| 0 <= j < x.len() implies #[trigger] x[j] != c by {
        let (a, d) = if w.nf { (w.q, w.y) } else { (w.y, w.q) };
        if j < a.len() { assert(x[j] == a[j]); if !w.nf { assert(w.y.contains(w.y[j])); } }
        else if j < a.len() + w.b.len() { assert(x[j] == w.b[j - a.len()]); }
        else { assert(x[j] == d[j - a.len() - w.b.len()]); if w.nf { assert(w.y.contains(w.y[j - a.len() - w.b.len()])); } }
    }
}
/// one lot price in front
pub proof fn annot_price(l: LotW, t: Seq<char>, q: Seq<char>, y: Seq<char>, d: Seq<char>)
    requires lot_wf(l), plain(t), q.len() == 0,
    ensures s_annot(lot_text(l) + t, q, y, d) == s_annot(t, l.w.q, l.w.y, d), (lot_text(l) + t)[0] == '{',
{
    let s = lot_text(l) + t;
    let inner = l.bi + (amt_text(l.w) + (l.bo + es()));
    assert(s[0] == '{');
    assert(dr(s, 1) =~= inner + (chr('}') + (l.ba + t)));
    amt_no(l.w, '}');
    assert forall|j: int| 0 <= j < inner.len() implies #[trigger] inner[j] != '}' by {
        if j < l.bi.len() { assert(inner[j] == l.bi[j]); }
        else if j < l.bi.len() + amt_text(l.w).len() { assert(inner[j] == amt_text(l.w)[j - l.bi.len()]); }
        else { assert(inner[j] == l.bo[j - l.bi.len() - amt_text(l.w).len()]); }
    }
    until_rt(inner, '}', l.ba + t);
    tstart_app(l.ba, t);
    amount_rt(l.bi, l.w, l.bo, es());
}
pub proof fn annot_date(l: LotD, t: Seq<char>, q: Seq<char>, y: Seq<char>, d: Seq<char>)
    requires lotd_wf(l), plain(t), d.len() == 0,
    ensures s_annot(lotd_text(l) + t, q, y, d) == s_annot(t, q, y, l.d), (lotd_text(l) + t)[0] == '[',
{
    let s = lotd_text(l) + t;
    assert(s[0] == '[');
    assert(dr(s, 1) =~= l.d + (chr(']') + (l.ba + t)));
    until_rt(l.d, ']', l.ba + t);
    tstart_app(l.ba, t);
    assert(l.d + es() =~= l.d);
    first_app(l.d, es(), p_date());
}
/// the lots of a posting, in either order
pub struct AnnW { pub price: Option<LotW>, pub date: Option<LotD>, pub date_first: bool }
pub open spec fn ann_text(a: AnnW) -> Seq<char> {
    let p = match a.price { Some(l) => lot_text(l), None => es() };
    let d = match a.date { Some(l) => lotd_text(l), None => es() };
    if a.date_first { d + p } else { p + d }
}
pub open spec fn ann_wf(a: AnnW) -> bool { (a.price is Some ==> lot_wf(a.price->0)) && (a.date is Some ==> lotd_wf(a.date->0)) }
pub open spec fn ann_q(a: AnnW) -> Seq<char> { match a.price { Some(l) => l.w.q, None => es() } }
pub open spec fn ann_y(a: AnnW) -> Seq<char> { match a.price { Some(l) => l.w.y, None => es() } }
pub open spec fn ann_d(a: AnnW) -> Seq<char> { match a.date { Some(l) => l.d, None => es() } }
pub proof fn annot_rt(a: AnnW, t: Seq<char>)
    requires ann_wf(a), plain(t), no_annot(t),
    ensures s_annot(ann_text(a) + t, es(), es(), es()) == Some((ann_q(a), ann_y(a), ann_d(a), t)), plain(ann_text(a) + t),
        (ann_text(a) + t).len() > 0 ==> ann_text(a) + t == t || (ann_text(a) + t)[0] == '{' || (ann_text(a) + t)[0] == '[',
{
    let p = match a.price { Some(l) => lot_text(l), None => es() };
    let d = match a.date { Some(l) => lotd_text(l), None => es() };
    if a.date_first {
        assert(ann_text(a) + t =~= d + (p + t));
        if a.price is None { assert(p + t =~= t); } else { annot_price(a.price->0, t, es(), es(), ann_d(a)); }
        if a.date is None { assert(d + (p + t) =~= p + t); } else { annot_date(a.date->0, p + t, es(), es(), es()); }
    } else {
        assert(ann_text(a) + t =~= p + (d + t));
        if a.date is None { assert(d + t =~= t); } else { annot_date(a.date->0, t, ann_q(a), ann_y(a), es()); }
        if a.price is None { assert(p + (d + t) =~= d + t); } else { annot_price(a.price->0, d + t, es(), es(), es()); }
    }
}
/// a cost: @ or @@, blanks, amount, blanks, and then the note or nothing
pub struct CostW { pub per_unit: bool, pub b: Seq<char>, pub w: AmtW, pub ba: Seq<char> }
pub open spec fn cost_text(c: CostW) -> Seq<char> { (if c.per_unit { chr('@') } else { seq!['@', '@'] }) + (c.b + amt_text(c.w)) + c.ba }
pub open spec fn note_or_nothing(t: Seq<char>) -> bool { t.len() == 0 || t[0] == ';' }
pub open spec fn cost_wf(c: CostW) -> bool { blanks(c.b) && amt_wf(c.w) && blanks(c.ba) }
pub proof fn cost_rt(c: CostW, t: Seq<char>)
    requires cost_wf(c), note_or_nothing(t),
    ensures s_cost(cost_text(c) + t) == (c.w.q, c.w.y, c.per_unit), !s_cost_panics(cost_text(c) + t), (cost_text(c) + t).len() > 0, (cost_text(c) + t)[0] == '@',
{
    let s = cost_text(c) + t;
    let x = c.b + (amt_text(c.w) + (c.ba + t));
    amount_rt(c.b, c.w, c.ba, t);
    assert(s[0] == '@');
    tstart_idem(x);
    if c.per_unit {
        assert(dr(s, 1) =~= x);
        if s.len() > 1 && s[1] == '@' {
            // the amount does not start with @
            assert(s[1] == x[0]);
            if c.b.len() > 0 { assert(x[0] == c.b[0]); } else {
                assert(x[0] == amt_text(c.w)[0]);
                if c.w.nf { assert(x[0] == c.w.q[0]); assert(is_num(c.w.q[0])); } else { assert(x[0] == c.w.y[0]); assert(!is_symend(c.w.y[0])); }
            }
            assert(false);
        }
    } else {
        assert(s[1] == '@');
        assert(dr(s, 2) =~= x);
    }
    amount_idem(x);
}
pub proof fn amount_idem(x: Seq<char>)
    ensures s_amount(tstart(x)) == s_amount(x),
{ tstart_idem(x); }

pub open spec fn acc_ok(a: Seq<char>) -> bool {
    a.len() > 0 && !is_ws(a[0]) && a[0] != ';' && !is_ws(a[a.len() - 1]) && forall|j: int| 0 <= j < a.len() - 1 ==> !(#[trigger] a[j] == ' ' && a[j + 1] == ' ')
}
pub proof fn acc_rt(a: Seq<char>, r: Seq<char>)
    requires acc_ok(a),
    ensures occ_idx(a + (acc_sep() + r), acc_sep()) == a.len(), tk(a + (acc_sep() + r), a.len() as int) == a, dr(a + (acc_sep() + r), a.len() as int + 2) == r,
{
    let s = a + (acc_sep() + r);
    assert(s.subrange(a.len() as int, a.len() as int + 2) =~= acc_sep());
    assert forall|j: int| 0 <= j < a.len() implies !#[trigger] occurs(s, acc_sep(), j) by {
        if occurs(s, acc_sep(), j) {
            let u = s.subrange(j, j + 2);
            assert(u[0] == ' ' && u[1] == ' '); assert(u[0] == s[j] && u[1] == s[j + 1]);
            assert(s[j] == a[j]);
            if j < a.len() - 1 { assert(s[j + 1] == a[j + 1]); } else { assert(is_ws(a[a.len() - 1])); }
        }
    }
    occ_idx_is(s, acc_sep(), a.len() as int);
    assert(tk(s, a.len() as int) =~= a);
    assert(dr(s, a.len() as int + 2) =~= r);
}
/// Theorem (C07): account, amount, lots, cost, note
pub proof fn post_rt(lead: Seq<char>, a: Seq<char>, b0: Seq<char>, w: AmtW, b: Seq<char>, n: AnnW, c: Option<CostW>, note: Seq<char>)
    requires blanks(lead), acc_ok(a), blanks(b0), amt_wf(w), blanks(b), ann_wf(n), c is Some ==> cost_wf(c->0), note_or_nothing(note),
        // the parts are separated where the notation needs it
        w.nf && (n.price is Some || n.date is Some) ==> w.y.len() > 0 && b.len() > 0,
    ensures ({
        let ct = match c { Some(k) => cost_text(k), None => es() };
        s_post(lead + (a + (acc_sep() + (b0 + (amt_text(w) + (b + (ann_text(n) + (ct + note)))))))) == Some(PT {
            account: a, quantity: w.q, symbol: w.y, price_quantity: ann_q(n), price_commodity: ann_y(n), price_date: ann_d(n),
            cost_quantity: (match c { Some(k) => k.w.q, None => es() }), cost_symbol: (match c { Some(k) => k.w.y, None => es() }),
            is_per_unit: (match c { Some(k) => k.per_unit, None => false }) })
    }),
{
    let ct = match c { Some(k) => cost_text(k), None => es() };
    let e = ct + note;
    if c is Some { cost_rt(c->0, note); } else { assert(e =~= note); }
    let t = ann_text(n) + e;
    annot_rt(n, e);
    if n.price is None && n.date is None { assert(t =~= e); }
    amount_rt(b0, w, b, t);
    let x = amt_text(w) + (b + t);
    let r = b0 + x;
    acc_rt(a, r);
    let s = a + (acc_sep() + r);
    assert(s[0] == a[0]);
    tstart_app(lead, s);
    // the amount is not blank and not a note
    if w.nf { assert(x[0] == w.q[0]); assert(is_num(w.q[0])); } else { assert(x[0] == w.y[0]); assert(!is_symend(w.y[0])); }
    tstart_app(b0, x);
    amount_idem(r);
    tstart_app(es(), t); assert(es() + t =~= t);
}
/// Theorem (C07): account and note, no amount
pub proof fn post_rt_note(lead: Seq<char>, a: Seq<char>, b0: Seq<char>, note: Seq<char>)
    requires blanks(lead), acc_ok(a), blanks(b0), note_or_nothing(note),
    ensures s_post(lead + (a + (acc_sep() + (b0 + note)))) == Some(PT { account: a, ..ptv_empty() }),
{
    acc_rt(a, b0 + note);
    let s = a + (acc_sep() + (b0 + note));
    assert(s[0] == a[0]);
    tstart_app(lead, s);
    tstart_app(b0, note);
}
/// Theorem (C07): an account alone, with an optional single line end or blank
pub proof fn post_rt_account(lead: Seq<char>, a: Seq<char>, e: Seq<char>)
    requires blanks(lead), acc_ok(a), blanks(e), e.len() <= 1,
    ensures s_post(lead + (a + e)) == Some(PT { account: a, ..ptv_empty() }),
{
    let s = a + e;
    assert(s[0] == a[0]);
    tstart_app(lead, s);
    assert forall|k: int| !#[trigger] occurs(s, acc_sep(), k) by {
        if occurs(s, acc_sep(), k) {
            let u = s.subrange(k, k + 2);
            assert(u[0] == ' ' && u[1] == ' '); assert(u[0] == s[k] && u[1] == s[k + 1]);
            assert(s[k] == a[k]);
            if k < a.len() - 1 { assert(s[k + 1] == a[k + 1]); } else { assert(is_ws(a[a.len() - 1])); }
        }
    }
    tend_app(a, e);
}
pub proof fn tend_app(a: Seq<char>, e: Seq<char>)
    requires blanks(e), a.len() == 0 || !is_ws(a[a.len() - 1]),
    ensures tend(a + e) == a,
    decreases e.len(),
{
    if e.len() == 0 { assert(a + e =~= a); }
    else {
        let e2 = e.subrange(0, e.len() - 1);
        assert((a + e)[(a + e).len() - 1] == e[e.len() - 1]);
        assert((a + e).subrange(0, (a + e).len() - 1) =~= a + e2);
        tend_app(a, e2);
    }
}
/// Theorem (C07): a line without an account is refused
pub proof fn post_no_account(lead: Seq<char>, note: Seq<char>)
    requires blanks(lead), note_or_nothing(note),
    ensures s_post(lead + note) is None,
{ tstart_app(lead, note); }

// ---- C08: a header line written from its parts
pub open spec fn date_ok(d: Seq<char>) -> bool { d.len() > 0 && forall|j: int| 0 <= j < d.len() ==> #[trigger] d[j] != '=' && !is_ws(d[j]) }
pub open spec fn trimmed(p: Seq<char>) -> bool { p.len() == 0 || (!is_ws(p[0]) && !is_ws(p[p.len() - 1])) }
pub open spec fn no_occ(s: Seq<char>, p: Seq<char>) -> bool { forall|j: int| !#[trigger] occurs(s, p, j) }
pub proof fn ttrim_rt(b: Seq<char>, p: Seq<char>, e: Seq<char>)
    requires blanks(b), blanks(e), trimmed(p),
    ensures ttrim(b + (p + e)) == p,
{
    let x = p + e;
    if p.len() > 0 { assert(x[0] == p[0]); tstart_app(b, x); tend_app(p, e); }
    else {
        assert(b + x =~= (b + e) + es());
        assert forall|j: int| 0 <= j < (b + e).len() implies is_ws(#[trigger] (b + e)[j]) by { if j < b.len() { assert((b + e)[j] == b[j]); } else { assert((b + e)[j] == e[j - b.len()]); } }
        tstart_app(b + e, es());
        assert(p =~= es());
    }
}
/// Theorem (C08): DATE[=AUX][ PAYEE][  ; NOTE] is split into its parts. `head` is "=AUX" or nothing, `pay` the blanks
/// and the payee; the only occurrence of the note separator is the one in front of the note.
pub proof fn header_rt(d: Seq<char>, aux: Option<Seq<char>>, b: Seq<char>, p: Seq<char>, e: Seq<char>, note: Option<(Seq<char>, Seq<char>, Seq<char>)>)
    requires
        date_ok(d), aux is Some ==> date_ok(aux->0), blanks(b), trimmed(p), blanks(e), p.len() > 0 ==> b.len() > 0,
        note is Some ==> blanks((note->0).0) && trimmed((note->0).1) && blanks((note->0).2),
        // the payee has no note separator of its own
        note is None ==> no_occ(b + (p + e), note_sep()),
        note is Some ==> occ_idx((b + (p + e)) + (note_sep() + ((note->0).0 + ((note->0).1 + (note->0).2))), note_sep()) == (b + (p + e)).len(),
    ensures ({
        let at = match aux { Some(x) => chr('=') + x, None => es() };
        let nt = match note { Some(n) => note_sep() + (n.0 + (n.1 + n.2)), None => es() };
        s_header(d + (at + ((b + (p + e)) + nt))) == (d, (match aux { Some(x) => x, None => es() }), p, (match note { Some(n) => n.1, None => es() }))
    }),
{
    let at = match aux { Some(x) => chr('=') + x, None => es() };
    let nt = match note { Some(n) => note_sep() + (n.0 + (n.1 + n.2)), None => es() };
    header_start(b, p, e, nt);
    header_dates(d, aux, (b + (p + e)) + nt);
    header_rest(b, p, e, note);
}
/// what follows the dates is empty or starts with a blank
proof fn header_start(b: Seq<char>, p: Seq<char>, e: Seq<char>, nt: Seq<char>)
    requires blanks(b), blanks(e), p.len() > 0 ==> b.len() > 0, nt.len() > 0 ==> nt[0] == ' ',
    ensures ({ let r = (b + (p + e)) + nt; r.len() == 0 || is_ws(r[0]) }),
{
    let pe = b + (p + e);
    let r = pe + nt;
    if pe.len() > 0 {
        assert(r[0] == pe[0]);
        if b.len() > 0 { assert(pe[0] == b[0]); } else { assert(p =~= es()); assert(pe =~= e); }
    } else if nt.len() > 0 { assert(r =~= nt); assert(nt[0] == note_sep()[0]); }
}
proof fn header_dates(d: Seq<char>, aux: Option<Seq<char>>, r: Seq<char>)
    requires date_ok(d), aux is Some ==> date_ok(aux->0), r.len() == 0 || is_ws(r[0]),
    ensures ({
        let at = match aux { Some(x) => chr('=') + x, None => es() };
        let s = s_date(d + (at + r));
        let a = s_aux(s.1);
        s.0 == d && a.0 == (match aux { Some(x) => x, None => es() }) && a.1 == r
    }),
{
    let at = match aux { Some(x) => chr('=') + x, None => es() };
    let x = at + r;
    if aux is Some { assert(x[0] == '='); } else { assert(x =~= r); }
    first_app(d, x, p_date());
    if aux is Some {
        let a = aux->0;
        let y = a + r;
        assert(y[0] == a[0]);
        assert(x.subrange(1, x.len() as int) =~= y);
        assert(tchar(y, '=') == y);
        assert(tchar(x, '=') == y);
        first_app(a, r, p_ws());
    } else if r.len() > 0 { assert(r[0] != '='); }
}
proof fn header_rest(b: Seq<char>, p: Seq<char>, e: Seq<char>, note: Option<(Seq<char>, Seq<char>, Seq<char>)>)
    requires
        blanks(b), trimmed(p), blanks(e),
        note is Some ==> blanks((note->0).0) && trimmed((note->0).1) && blanks((note->0).2),
        note is None ==> no_occ(b + (p + e), note_sep()),
        note is Some ==> occ_idx((b + (p + e)) + (note_sep() + ((note->0).0 + ((note->0).1 + (note->0).2))), note_sep()) == (b + (p + e)).len(),
    ensures ({
        let nt = match note { Some(n) => note_sep() + (n.0 + (n.1 + n.2)), None => es() };
        let s = s_payee((b + (p + e)) + nt);
        s.0 == p && s_note(s.1) == (match note { Some(n) => n.1, None => es() })
    }),
{
    let nt = match note { Some(n) => note_sep() + (n.0 + (n.1 + n.2)), None => es() };
    let pe = b + (p + e);
    let r = pe + nt;
    ttrim_rt(b, p, e);
    if note is Some {
        let n = note->0;
        assert(tk(r, pe.len() as int) =~= pe);
        assert(dr(r, pe.len() as int) =~= nt);
        assert(dr(nt, 3) =~= n.0 + (n.1 + n.2));
        ttrim_rt(n.0, n.1, n.2);
    } else {
        assert(r =~= pe);
        assert(!exists|k: int| occurs(r, note_sep(), k)) by { if exists|k: int| occurs(r, note_sep(), k) { let k = choose|k: int| occurs(r, note_sep(), k); assert(!occurs(pe, note_sep(), k)); } }
    }
}
