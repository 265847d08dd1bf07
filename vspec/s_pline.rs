// ---- what a price line means (C09)
/// the parts of the line are a date, a time, two symbols and a number
pub open spec fn price_line_ok(s: Seq<char>) -> bool {
    let t = s_price(s);
    s_price_time(s).len() > 0 && date_ok(t.0, "%Y-%m-%d"@) && (t.1.len() > 0 ==> time_ok(t.1, "%H:%M:%S"@)) && dec_ok(t.3) && t.4.len() > 0 && t.2 != t.4
}
pub open spec fn price_line_when(s: Seq<char>) -> NaiveDateTime {
    let t = s_price(s);
    dt_of(date_val(t.0, "%Y-%m-%d"@), if t.1.len() > 0 { time_val(t.1, "%H:%M:%S"@) } else { midnight() })
}
pub mod ax_pline { use super::*;
/// the empty text is no number
pub broadcast axiom fn empty_no_dec(s: Seq<char>) ensures #[trigger] dec_ok(s) ==> s.len() > 0;
}
pub proof fn no_time_no_number(s: Seq<char>)
    ensures dec_ok(s_price(s).3) ==> s_price(s).2.len() > 0,
{
    ax_pline::empty_no_dec(s_price(s).3);
    let d = s_elem(tstart(dr(s, 1)));
    let x = tstart(d.1);
    let t = if x.len() > 0 && is_dig(x[0]) { s_elem(x) } else { (es(), x) };
    let c = s_elem(tstart(t.1));
    if c.0.len() == 0 {
        let y = tstart(t.1);
        first_idx_props(y, p_ws());
        tstart_nows(t.1);
        assert(y.len() == 0);
        assert(c.1.len() == 0);
        assert(tstart(c.1).len() == 0);
        assert(s_elem(tstart(c.1)).0.len() == 0) by { first_idx_props(tstart(c.1), p_ws()); }
    }
}
pub proof fn tstart_nows(s: Seq<char>)
    ensures tstart(s).len() > 0 ==> !is_ws(tstart(s)[0]),
    decreases s.len(),
{ if s.len() > 0 && is_ws(s[0]) { tstart_nows(s.subrange(1, s.len() as int)); } }
