//! A journal written down as data, its text, and what reading it must give (written from the properties, not from the code).
use crate::util::*;
use rust_decimal::Decimal;
use std::collections::BTreeMap;

pub const SYMS: &[&str] = &["EUR", "USD", "VEUR", "$", "€", "BTC", "Ω", "h", "GOLD", "£", "AUD", "¥en", "a.b", "Kč", "EU", "eur", "\"EUR\"", "E/U", "a'b", "Eur_", "%", "EUR€"];
/// symbols a balance report cannot tell apart
pub const MORE: &[&str] = &["EUR.", "E,U", "USD..", "a.", "VEUR,"];
pub const PARTS: &[&str] = &["Assets", "Expenses", "Cash", "Bank", "Food", "My Bank", "Größe", "Asset", "A", "a", "Income", "Cash 2", "日本", "B", "Equity", "0", "x-y", "Cash'", "Food;Drinks", "@home", "{b}"];

#[derive(Clone, Debug)]
pub struct Amt { pub q: String, pub sym: String, pub nf: bool, pub sp: String }
impl Amt {
    pub fn dec(&self) -> Decimal { d(&self.q) }
    pub fn text(&self) -> String {
        if self.sym.is_empty() { self.q.clone() } else if self.nf { format!("{}{}{}", self.q, self.sp, self.sym) } else { format!("{}{}{}", self.sym, if self.q.starts_with('.') && self.sp.is_empty() { " " } else { &self.sp }, self.q) }
    }
}
#[derive(Clone, Debug)]
pub struct Cost { pub per_unit: bool, pub amt: Amt, pub b1: String, pub b2: String }
#[derive(Clone, Debug, Default)]
pub struct Lot { pub price: Option<Amt>, pub date: Option<String>, pub date_first: bool, pub blank: String }
#[derive(Clone, Debug)]
pub struct P { pub account: String, pub amt: Option<Amt>, pub lot: Lot, pub cost: Option<Cost>, pub note: Option<String>, pub comments: Vec<String>, pub gap: String, pub indent: String, pub trail: String }
#[derive(Clone, Debug)]
pub struct X { pub date: String, pub aux: Option<String>, pub payee: String, pub note: Option<String>, pub comments: Vec<String>, pub posts: Vec<P> }

pub fn number(r: &mut Rng) -> String {
    let sign = if r.p(2, 5) { "-" } else { "" };
    let int = match r.n(8) { 0 => "0".to_string(), 1 => r.r(1, 9).to_string(), 7 => r.r(10000, 99999).to_string(), _ => r.r(1, 5000).to_string() };
    let frac = if r.p(1, 2) { let k = *r.pick(&[1usize, 2, 2, 3, 4, 6, 8]); let mut s = String::from("."); for _ in 0..k { s.push((b'0' + r.n(10) as u8) as char); } s } else { String::new() };
    format!("{sign}{int}{frac}")
}
pub fn pos_number(r: &mut Rng) -> String {
    loop { let n = number(r); let n = n.trim_start_matches('-').to_string(); if d(&n) != Decimal::ZERO { return n; } }
}
pub fn nz_number(r: &mut Rng) -> String { loop { let n = number(r); if d(&n) != Decimal::ZERO { return n; } } }
pub fn blanks(r: &mut Rng) -> String { r.pick(&["", " ", "", "  ", " ", "   ", "\t"]).to_string() }
pub fn amt(r: &mut Rng, q: String, sym: &str) -> Amt { Amt { q, sym: sym.to_string(), nf: r.p(2, 3), sp: r.pick(&["", " ", " ", " ", "  "]).to_string() } }
pub fn date(r: &mut Rng) -> String { format!("{:04}-{:02}-{:02}", *r.pick(&[1999, 2020, 2021, 2022, 2023, 2023, 2024, 2093]), r.r(1, 12), r.r(1, 28)) }
pub fn account(r: &mut Rng, wide: bool) -> String {
    let n = match r.n(10) { 0 | 1 => 1, 2..=6 => 2, 7 | 8 => 3, _ => r.r(4, 6) };
    let mut v: Vec<String> = (0..n).map(|_| r.pick(PARTS).to_string()).collect();
    if wide && r.p(1, 2) { let k = v.len() - 1; v[k] = format!("acc{}", r.n(60)); }
    // a line may not start with what is a comment or blank
    v.join(":")
}
pub fn words(r: &mut Rng) -> String {
    let n = r.r(1, 4);
    (0..n).map(|_| r.pick(&["Super", "market", "ACME;", "=", "2023-01-01", "Café", "a;b", "@", "{x}", "Ltd.", "日本", "-", "10", "(123)", "#tag", ";", "*"]).to_string()).collect::<Vec<_>>().join(" ")
}
pub fn word_note(r: &mut Rng) -> String { let n = r.r(1, 3); (0..n).map(|_| r.pick(&["note", "tag: value", "a  b", "; c", "  ;", "ü", "20 EUR", "@ 3 USD", "x"]).to_string()).collect::<Vec<_>>().join(" ").trim().to_string() }

impl P {
    pub fn new(account: &str) -> P { P { account: account.to_string(), amt: None, lot: Lot::default(), cost: None, note: None, comments: vec![], gap: "  ".into(), indent: "    ".into(), trail: String::new() } }
    /// the posting line from the account on, without line end
    pub fn body(&self) -> String {
        let mut s = self.account.clone();
        if let Some(a) = &self.amt {
            s += &self.gap; s += &a.text();
            let mut lots = vec![];
            if let Some(p) = &self.lot.price { lots.push(format!("{{{}}}", p.text())); }
            if let Some(x) = &self.lot.date { lots.push(format!("[{}]", x)); }
            if self.lot.date_first { lots.reverse(); }
            // the notation needs a blank between a symbol and what follows
            let mut first = true;
            for l in &lots { if first && a.nf { s += " "; } s += &self.lot.blank; s += l; first = false; }
            if let Some(c) = &self.cost { s += &c.b1; s += if c.per_unit { "@" } else { "@@" }; s += &c.b2; s += &c.amt.text(); }
            if let Some(n) = &self.note { s += "  ; "; s += n; }
        } else if let Some(n) = &self.note { s += "  ; "; s += n; }
        s + &self.trail
    }
}
impl X {
    pub fn new(date: &str, payee: &str) -> X { X { date: date.into(), aux: None, payee: payee.into(), note: None, comments: vec![], posts: vec![] } }
    pub fn header(&self) -> String {
        let mut s = self.date.clone();
        if let Some(a) = &self.aux { s += "="; s += a; }
        if !self.payee.is_empty() { s += " "; s += &self.payee; }
        if let Some(n) = &self.note { s += "  ; "; s += n; }
        s
    }
    pub fn text(&self, nl: &str) -> String {
        let mut s = self.header() + nl;
        for c in &self.comments { s += &format!("  ; {c}{nl}"); }
        for p in &self.posts {
            s += &p.indent; s += &p.body(); s += nl;
            for c in &p.comments { s += &format!("    ;{c}{nl}"); }
        }
        s
    }
}
pub type V = (Decimal, String);
#[derive(Clone, Debug, PartialEq)]
pub struct EP { pub account: String, pub amount: Option<V>, pub cost: Option<V>, pub exact: bool, pub explicit: bool }
/// What completing the transaction must give; None: it must be refused.
pub fn expect(x: &X) -> Option<Vec<EP>> {
    let mut out: Vec<EP> = vec![];
    for p in &x.posts {
        let amount = p.amt.as_ref().map(|a| (a.dec(), a.sym.clone()));
        let cost = match (&p.cost, &amount) { (Some(c), Some(a)) => Some((if c.per_unit { c.amt.dec() * a.0 } else { c.amt.dec() }, c.amt.sym.clone())), _ => None };
        out.push(EP { account: p.account.clone(), explicit: amount.is_some(), amount, cost, exact: true });
    }
    if out.len() == 1 { return None; }
    let elided: Vec<usize> = (0..out.len()).filter(|i| out[*i].amount.is_none()).collect();
    if elided.len() > 1 { return None; }
    let mut sums: Vec<V> = vec![];
    for p in &out {
        if let Some(v) = p.cost.as_ref().or(p.amount.as_ref()) {
            match sums.iter_mut().find(|s| s.1 == v.1) { Some(s) => s.0 += v.0, None => sums.push(v.clone()) }
        }
    }
    if elided.len() == 1 {
        if sums.len() != 1 { return None; }
        out[elided[0]].amount = Some((-sums[0].0, sums[0].1.clone()));
    } else if out.iter().all(|p| p.cost.is_none()) && sums.len() == 2 && sums[0].0 != Decimal::ZERO && sums[1].0 != Decimal::ZERO {
        let first = out[0].amount.clone().unwrap().1;
        let (me, other) = if sums[0].1 == first { (&sums[0], &sums[1]) } else { (&sums[1], &sums[0]) };
        let ratio = (other.0 / me.0).abs();
        for p in out.iter_mut() {
            let a = p.amount.clone().unwrap();
            if a.1 == first { p.cost = Some((a.0 * ratio, other.1.clone())); p.exact = false; }
        }
    }
    Some(out)
}
/// (source, target, date) -> (price, per what is known)
pub fn expect_prices(xs: &[X]) -> BTreeMap<(String, String, String), Decimal> {
    let mut m = BTreeMap::new();
    for x in xs {
        for p in expect(x).unwrap() {
            if let (Some(a), Some(c)) = (p.amount, p.cost) {
                let v = if a.0 == Decimal::ZERO { c.0.abs() } else { (c.0 / a.0).abs() };
                if v != Decimal::ZERO { m.insert((a.1, c.1, x.date.clone()), v); }
            }
        }
    }
    m
}

pub struct Cfg { pub maxposts: usize, pub costs: usize, pub lots: usize, pub two: usize, pub bare: usize, pub wide: bool, pub comments: usize, pub notes: usize, pub elide: usize, pub multi: usize }
pub const PLAIN: Cfg = Cfg { maxposts: 5, costs: 2, lots: 1, two: 1, bare: 1, wide: false, comments: 1, notes: 1, elide: 6, multi: 1 };

/// A transaction that is accepted.
pub fn xact(r: &mut Rng, c: &Cfg, syms: &[&str]) -> X {
    let mut x = X::new(&date(r), &if r.p(1, 8) { String::new() } else { words(r) });
    if x.payee.starts_with(';') { x.payee = format!("x {}", x.payee); }
    if r.p(1, 5) { x.aux = Some(date(r)); }
    if r.p(c.notes, 6) { x.note = Some(word_note(r)); }
    if r.p(c.comments, 5) { for _ in 0..r.r(1, 2) { x.comments.push(word_note(r)); } }
    let n = r.r(2, c.maxposts.max(2));
    let base = r.pick(syms).to_string();
    let kind = r.n(10);
    let pick_other = |r: &mut Rng| loop { let s = r.pick(syms).to_string(); if s != base { break s; } };
    for i in 0..n {
        let mut p = P::new(&account(r, c.wide));
        p.gap = r.pick(&["  ", "  ", "   ", "     ", "  \t"]).to_string();
        p.indent = r.pick(&["    ", "  ", " ", "   \t"]).to_string();
        p.trail = r.pick(&["", "", "", " ", "  "]).to_string();
        let _ = i;
        p.amt = Some(if r.p(c.bare, 20) && kind < 6 { Amt { q: number(r), sym: String::new(), nf: true, sp: String::new() } } else { let q = number(r); amt(r, q, &base) });
        if r.p(c.notes, 6) { p.note = Some(word_note(r)); }
        if r.p(c.comments, 6) { for _ in 0..r.r(1, 2) { p.comments.push(word_note(r)); } }
        x.posts.push(p);
    }
    // one commodity for all, or all bare
    let bare = r.p(c.bare, 12);
    for p in x.posts.iter_mut() { let a = p.amt.as_mut().unwrap(); a.sym = if bare { String::new() } else { base.clone() }; }
    if !bare {
        if r.p(c.costs, 6) && syms.len() > 1 {
            // some postings in other commodities, at a cost in the base commodity
            for p in x.posts.iter_mut() { if r.p(1, 2) {
                let o = pick_other(r);
                p.amt.as_mut().unwrap().sym = o;
                let q = if r.p(1, 4) { number(r) } else { pos_number(r) };
                p.cost = Some(Cost { per_unit: r.p(1, 2), amt: amt(r, q, &base), b1: r.pick(&[" ", " ", "", "  "]).to_string(), b2: r.pick(&[" ", " ", "", "  "]).to_string() });
                if r.p(c.lots, 4) {
                    let q = pos_number(r); let dt = date(r); let sy = r.pick(syms).to_string();
                    p.lot = Lot { price: if r.p(3, 4) { Some(amt(r, q, &sy)) } else { None }, date: if r.p(1, 2) { Some(dt) } else { None }, date_first: r.p(1, 3), blank: r.pick(&["", " ", "  "]).to_string() };
                }
            } }
        } else if r.p(c.two, 6) && syms.len() > 1 {
            let o = pick_other(r);
            for p in x.posts.iter_mut() { if r.p(1, 2) { p.amt.as_mut().unwrap().sym = o.clone(); } }
            return x;
        } else if r.p(c.multi, 12) && syms.len() > 2 {
            for p in x.posts.iter_mut() { let s = r.pick(syms).to_string(); p.amt.as_mut().unwrap().sym = s; }
            return x;
        }
    }
    // an elided posting
    if r.p(c.elide, 10) {
        let k = r.n(x.posts.len());
        let p = &mut x.posts[k]; p.amt = None; p.cost = None; p.lot = Lot::default();
        if expect(&x).is_none() { let q = number(r); let s = base.clone(); let p = &mut x.posts[k]; p.amt = Some(amt(r, q, &s)); }
    }
    if expect(&x).is_none() || two_with_cost(&x) { for p in x.posts.iter_mut() { if p.cost.is_some() { p.cost = None; p.lot = Lot::default(); } p.amt = p.amt.take().map(|mut a| { a.sym = base.clone(); a }); } }
    x
}
/// stated costs and two commodities without an elided posting: outside the properties
pub fn two_with_cost(x: &X) -> bool {
    if x.posts.iter().any(|p| p.amt.is_none()) || x.posts.iter().all(|p| p.cost.is_none()) { return false; }
    let mut s: Vec<String> = x.posts.iter().filter_map(|p| p.cost.as_ref().map(|c| c.amt.sym.clone()).or(p.amt.as_ref().map(|a| a.sym.clone()))).collect();
    s.sort(); s.dedup(); s.len() == 2
}
pub fn journal_text(r: &mut Rng, xs: &[X]) -> String {
    let nl = if r.p(1, 4) { "\r\n" } else { "\n" };
    let mut s = String::new();
    let filler = |r: &mut Rng, s: &mut String| { for _ in 0..r.n(3) { *s += *r.pick::<&str>(&["", "; a comment", "", " ", "    ", "\t", " \t ", "# other", "* x", "| y", ";", "; 2023-01-01 no xact"]); *s += nl; } };
    if r.p(1, 3) { filler(r, &mut s); }
    for x in xs {
        s += &x.text(nl); if r.p(1, 6) { s += *r.pick::<&str>(&[" ", "   ", "\t"]); } s += nl;
        if r.p(1, 4) { filler(r, &mut s); }
    }
    if r.p(1, 3) { s = s.trim_end_matches(|c| c == '\r' || c == '\n').to_string(); }
    s
}
