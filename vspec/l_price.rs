// ---- round trip of the price directive (C09)
pub open spec fn word(w: Seq<char>) -> bool { w.len() > 0 && forall|j: int| 0 <= j < w.len() ==> !is_ws(#[trigger] w[j]) }
/// blanks that separate
pub open spec fn gap(b: Seq<char>) -> bool { b.len() > 0 && forall|j: int| 0 <= j < b.len() ==> is_ws(#[trigger] b[j]) }
pub proof fn elem_rt(w: Seq<char>, r: Seq<char>)
    requires word(w), r.len() == 0 || is_ws(r[0]),
    ensures s_elem(w + r) == (w, r),
{ first_app(w, r, p_ws()); }
pub proof fn gap_word(b: Seq<char>, w: Seq<char>, r: Seq<char>)
    requires gap(b), word(w),
    ensures tstart(b + (w + r)) == w + r, is_ws((b + (w + r))[0]), (w + r)[0] == w[0], !is_ws(w[0]),
{ assert((w + r)[0] == w[0]); tstart_app(b, w + r); assert((b + (w + r))[0] == b[0]); }
/// Theorem (C09): P DATE [TIME] SYMBOL QUANTITY PRICE-SYMBOL, separated by any blanks, is split into its parts
pub proof fn price_rt(b1: Seq<char>, d: Seq<char>, b2: Seq<char>, t: Option<(Seq<char>, Seq<char>)>, c: Seq<char>, b4: Seq<char>, q: Seq<char>, b5: Seq<char>, p: Seq<char>, e: Seq<char>)
    requires gap(b1), word(d), gap(b2), t is Some ==> word((t->0).0) && is_dig((t->0).0[0]) && gap((t->0).1), word(c), t is None ==> !is_dig(c[0]), gap(b4), word(q), gap(b5), word(p), e.len() == 0 || is_ws(e[0]),
    ensures ({
        let rest = c + (b4 + (q + (b5 + (p + e))));
        let tt = match t { Some(x) => x.0 + (x.1 + rest), None => rest };
        s_price(chr('P') + (b1 + (d + (b2 + tt)))) == (d, (match t { Some(x) => x.0, None => es() }), c, q, p) && s_price_time(chr('P') + (b1 + (d + (b2 + tt)))).len() > 0
    }),
{
    let r5 = p + e;
    let r4 = q + (b5 + r5);
    let rest = c + (b4 + r4);
    let tt = match t { Some(x) => x.0 + (x.1 + rest), None => rest };
    let s = chr('P') + (b1 + (d + (b2 + tt)));
    assert(dr(s, 1) =~= b1 + (d + (b2 + tt)));
    gap_word(b1, d, b2 + tt);
    if t is Some { let x = t->0; gap_word(b2, x.0, x.1 + rest); gap_word(x.1, c, b4 + r4); elem_rt(x.0, x.1 + rest); assert(tt == x.0 + (x.1 + rest)); }
    else { gap_word(b2, c, b4 + r4); tstart_app(es(), rest); assert(es() + rest =~= rest); }
    elem_rt(d, b2 + tt);
    gap_word(b4, q, b5 + r5);
    gap_word(b5, p, e);
    elem_rt(c, b4 + r4);
    elem_rt(q, b5 + r5);
    elem_rt(p, e);
}
