// ---- specification of the price directive's scanner (C09)
pub open spec fn s_elem(s: Seq<char>) -> (Seq<char>, Seq<char>) { let k = first_idx(s, p_ws()); (tk(s, k), dr(s, k)) }
pub open spec fn s_price_time(s: Seq<char>) -> Seq<char> { tstart(s_elem(tstart(dr(s, 1))).1) }
pub open spec fn s_price(s: Seq<char>) -> (Seq<char>, Seq<char>, Seq<char>, Seq<char>, Seq<char>) {
    let d = s_elem(tstart(dr(s, 1)));
    let x = tstart(d.1);
    let t = if x.len() > 0 && is_dig(x[0]) { s_elem(x) } else { (es(), x) };
    let c = s_elem(tstart(t.1));
    let q = s_elem(tstart(c.1));
    let p = s_elem(tstart(q.1));
    (d.0, t.0, c.0, q.0, p.0)
}
