// ---- specification of the scanner (C07, C08)
pub open spec fn es() -> Seq<char> { Seq::<char>::empty() }
pub open spec fn tk(s: Seq<char>, k: int) -> Seq<char> { s.subrange(0, k) }
pub open spec fn dr(s: Seq<char>, k: int) -> Seq<char> { s.subrange(k, s.len() as int) }
pub open spec fn is_num(c: char) -> bool { is_dig(c) || c == '-' || c == '.' || c == ',' }
pub open spec fn is_symend(c: char) -> bool { is_ws(c) || c == '@' || c == ';' || is_dig(c) || c == '-' }
pub open spec fn p_ws() -> spec_fn(char) -> bool { |c: char| is_ws(c) }
pub open spec fn p_date() -> spec_fn(char) -> bool { |c: char| c == '=' || is_ws(c) }
pub open spec fn p_nonnum() -> spec_fn(char) -> bool { |c: char| !is_num(c) }
pub open spec fn p_symend() -> spec_fn(char) -> bool { |c: char| is_symend(c) }

// header
pub open spec fn s_date(s: Seq<char>) -> (Seq<char>, Seq<char>) { let k = first_idx(s, p_date()); (tk(s, k), dr(s, k)) }
pub open spec fn s_aux(s: Seq<char>) -> (Seq<char>, Seq<char>) {
    if s.len() > 0 && s[0] == '=' { let t = tchar(s, '='); let k = first_idx(t, p_ws()); (tk(t, k), dr(t, k)) } else { (es(), s) }
}
pub open spec fn note_sep() -> Seq<char> { seq![' ', ' ', ';'] }
pub open spec fn s_payee(s: Seq<char>) -> (Seq<char>, Seq<char>) {
    let k = occ_idx(s, note_sep()); if k >= 0 { (ttrim(tk(s, k)), dr(s, k)) } else { (ttrim(s), es()) }
}
pub open spec fn note_pre(s: Seq<char>) -> bool { s.len() == 0 || (s.len() >= 3 && s[0] == ' ' && s[1] == ' ' && s[2] == ';') }
pub open spec fn s_note(s: Seq<char>) -> Seq<char> { if s.len() == 0 { es() } else { ttrim(dr(s, 3)) } }
pub open spec fn s_header(s: Seq<char>) -> (Seq<char>, Seq<char>, Seq<char>, Seq<char>) {
    let d = s_date(s); let a = s_aux(d.1); let p = s_payee(a.1); (d.0, a.0, p.0, s_note(p.1))
}

// amounts
pub open spec fn s_quantity(s: Seq<char>) -> (Seq<char>, Seq<char>) { let k = first_idx(s, p_nonnum()); (tk(s, k), tstart(dr(s, k))) }
pub open spec fn s_symbol(s0: Seq<char>) -> (Seq<char>, Seq<char>) { let s = tstart(s0); let k = first_idx(s, p_symend()); (tk(s, k), tstart(dr(s, k))) }
/// (quantity, symbol, rest)
pub open spec fn s_amount(s0: Seq<char>) -> (Seq<char>, Seq<char>, Seq<char>) {
    let s = tstart(s0);
    if s.len() > 0 && is_num(s[0]) { let q = s_quantity(s); let y = s_symbol(q.1); (q.0, y.0, y.1) }
    else { let y = s_symbol(s); let q = s_quantity(y.1); (q.0, y.0, q.1) }
}
pub open spec fn s_until(s: Seq<char>, c: char) -> (Seq<char>, Seq<char>) { let k = first_idx(s, p_is(c)); (tk(s, k), dr(s, k)) }
/// lot price and date: (quantity, symbol, date, rest), None when refused
pub open spec fn s_annot(s: Seq<char>, q: Seq<char>, y: Seq<char>, d: Seq<char>) -> Option<(Seq<char>, Seq<char>, Seq<char>, Seq<char>)>
    decreases s.len()
{
    if s.len() == 0 { Some((q, y, d, s)) }
    else if s[0] == '{' {
        let u = s_until(dr(s, 1), '}');
        let rest = tstart(dr(u.1, 1));
        if q.len() > 0 || !dr(s, 1).contains('}') || tstart(u.0).len() == 0 || rest.len() >= s.len() { None }
        else { let a = s_amount(u.0); s_annot(rest, a.0, a.1, d) }
    } else if s[0] == '[' {
        let u = s_until(dr(s, 1), ']');
        let rest = tstart(dr(u.1, 1));
        if d.len() > 0 || !dr(s, 1).contains(']') || rest.len() >= s.len() { None }
        else { s_annot(rest, q, y, s_date(u.0).0) }
    } else if s[0] == '(' { None }
    else { Some((q, y, d, s)) }
}
/// (quantity, symbol, per unit)
pub open spec fn s_cost(s: Seq<char>) -> (Seq<char>, Seq<char>, bool) {
    if s.len() == 0 || s[0] != '@' { (es(), es(), false) }
    else if s.len() > 1 && s[1] == '@' { let a = s_amount(tstart(dr(s, 2))); (a.0, a.1, false) }
    else { let a = s_amount(tstart(dr(s, 1))); (a.0, a.1, true) }
}
pub open spec fn s_cost_panics(s: Seq<char>) -> bool {
    s.len() > 0 && s[0] == '@' && tstart(dr(s, if s.len() > 1 && s[1] == '@' { 2int } else { 1int })).len() == 0
}

pub struct PT { pub account: Seq<char>, pub quantity: Seq<char>, pub symbol: Seq<char>, pub price_quantity: Seq<char>, pub price_commodity: Seq<char>,
    pub price_date: Seq<char>, pub cost_quantity: Seq<char>, pub cost_symbol: Seq<char>, pub is_per_unit: bool }
pub open spec fn ptv(p: PostTokens) -> PT {
    PT { account: p.account@, quantity: p.quantity@, symbol: p.symbol@, price_quantity: p.price_quantity@, price_commodity: p.price_commodity@,
        price_date: p.price_date@, cost_quantity: p.cost_quantity@, cost_symbol: p.cost_symbol@, is_per_unit: p.is_per_unit }
}
pub open spec fn ptv_empty() -> PT {
    PT { account: es(), quantity: es(), symbol: es(), price_quantity: es(), price_commodity: es(), price_date: es(), cost_quantity: es(), cost_symbol: es(), is_per_unit: false }
}
pub open spec fn atv(a: AmountTokens) -> (Seq<char>, Seq<char>) { (a.quantity@, a.symbol@) }
pub open spec fn acc_sep() -> Seq<char> { seq![' ', ' '] }
/// the posting line; None when refused
pub open spec fn s_post(s0: Seq<char>) -> Option<PT> {
    let s = tstart(s0);
    if s.len() == 0 || s[0] == ';' { None }
    else {
        let k = occ_idx(s, acc_sep());
        if k < 0 { Some(PT { account: tend(s), ..ptv_empty() }) }
        else {
            let t = tstart(dr(s, k + 2));
            if t.len() == 0 || t[0] == ';' { Some(PT { account: tk(s, k), ..ptv_empty() }) }
            else {
                let a = s_amount(t);
                match s_annot(tstart(a.2), es(), es(), es()) {
                    None => None,
                    Some(n) => if s_cost_panics(n.3) { None } else {
                        let c = s_cost(n.3);
                        Some(PT { account: tk(s, k), quantity: a.0, symbol: a.1, price_quantity: n.0, price_commodity: n.1, price_date: n.2,
                            cost_quantity: c.0, cost_symbol: c.1, is_per_unit: c.2 })
                    },
                }
            }
        }
    }
}

// ---- lemmas used by the functions' proofs
pub broadcast proof fn tstart_len(s: Seq<char>)
    ensures (#[trigger] tstart(s)).len() <= s.len(),
    decreases s.len(),
{ if s.len() > 0 && is_ws(s[0]) { tstart_len(s.subrange(1, s.len() as int)); } }
pub broadcast proof fn tstart_idem(s: Seq<char>)
    ensures #[trigger] tstart(tstart(s)) == tstart(s),
    decreases s.len(),
{ if s.len() > 0 && is_ws(s[0]) { tstart_idem(s.subrange(1, s.len() as int)); } }
pub broadcast proof fn until_len(s: Seq<char>, c: char)
    ensures (#[trigger] s_until(s, c)).1.len() <= s.len(), s.contains(c) ==> s_until(s, c).1.len() > 0,
{ first_idx_props(s, p_is(c)); if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(p_is(c)(s[i])); } }
pub broadcast proof fn boff_zero(s: Seq<char>)
    ensures #![trigger is_bnd(s, 0)] #![trigger cidx(s, 0)] is_bnd(s, 0) && cidx(s, 0) == 0,
{ assert(boff(s, 0) == 0); boff_cidx(s, 0); }
pub proof fn first_idx_step(s: Seq<char>, p: spec_fn(char) -> bool, n: int)
    requires 0 <= n < s.len(), n <= first_idx(s, p),
    ensures p(s[n]) ==> first_idx(s, p) == n, !p(s[n]) ==> first_idx(s, p) >= n + 1,
{ first_idx_props(s, p); if p(s[n]) && first_idx(s, p) > n { } }
pub proof fn occ_idx_is(s: Seq<char>, p: Seq<char>, k: int)
    requires first_occ(s, p, k),
    ensures occ_idx(s, p) == k,
{
    let j = choose|j: int| first_occ(s, p, j);
    assert(first_occ(s, p, j)); assert(occurs(s, p, k)); assert(occurs(s, p, j));
    if j < k { assert(!occurs(s, p, j)); } if k < j { assert(!occurs(s, p, k)); }
}
pub broadcast proof fn payee_note(s: Seq<char>)
    ensures note_pre(#[trigger] s_payee(s).1),
{
    let k = occ_idx(s, note_sep());
    if k >= 0 {
        occ_exists(s, note_sep());
        let t = s.subrange(k, k + 3);
        assert(t == note_sep());
        assert(t[0] == s[k] && t[1] == s[k + 1] && t[2] == s[k + 2]);
    }
}
/// a pattern that occurs has a first occurrence
pub proof fn occ_exists(s: Seq<char>, p: Seq<char>)
    requires exists|k: int| occurs(s, p, k),
    ensures first_occ(s, p, occ_idx(s, p)),
{
    let k = choose|k: int| occurs(s, p, k);
    occ_exists_from(s, p, k);
    let j = choose|j: int| first_occ(s, p, j);
    assert(first_occ(s, p, j));
}
proof fn occ_exists_from(s: Seq<char>, p: Seq<char>, k: int)
    requires occurs(s, p, k),
    ensures exists|j: int| first_occ(s, p, j),
    decreases k,
{
    if exists|j: int| 0 <= j < k && occurs(s, p, j) {
        let j = choose|j: int| 0 <= j < k && occurs(s, p, j);
        occ_exists_from(s, p, j);
    } else { assert(first_occ(s, p, k)); }
}
