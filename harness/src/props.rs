use crate::{model::*, util::*};
use ledger_rs_lib::{account::Account, amount::{Amount, Quantity}, commodity::Commodity, journal::Journal, parse_file, parse_text, pool::CommodityPool, post::Post, report, scanner, xact::Xact};
use rust_decimal::Decimal;
use std::collections::{BTreeMap, BTreeSet, HashMap};
#[cfg(ledger_verif)]
use ledger_rs_lib::verif;

pub fn make(prop: &str, r: &mut Rng, i: u64) -> Option<Case> {
    Some(match prop {
        "C01" => c01(r, i), "C02" => c02(r, i), "C03" => c03(r, i), "C04" => c04(r, i), "C05" => c05(r, i),
        "C06" => c06(r, i), "C07" => c07(r, i), "C08" => c08(r, i), "C09" => c09(r, i), "C10" => c10(r, i),
        "C11" => c11(r, i), "C12" => c12(r, i), "C13" => c13(r, i), "C14" => c14(r, i), "C15" => c15(r, i),
        _ => return None,
    })
}

// ------------------------------------------------------------------ observations
fn sym(a: &Amount) -> String { a.get_commodity().map(|c| c.symbol.clone()).unwrap_or_default() }
fn av(a: &Amount) -> V { (qd(&a.quantity), sym(a)) }
fn read(text: &str) -> Result<Journal, String> { attempt(|| { let mut j = Journal::new(); parse_text(text, &mut j); j }) }
fn read_ok(text: &str) -> Result<Journal, String> { read(text).map_err(|e| format!("reading the journal {e}")) }
/// all accounts with their full path, found from the tree alone
fn tree(j: &Journal) -> Vec<(String, &Account)> {
    fn go<'a>(a: &'a Account, path: &str, out: &mut Vec<(String, &'a Account)>) {
        out.push((path.to_string(), a));
        let mut ks: Vec<_> = a.accounts.iter().collect(); ks.sort_by(|x, y| x.0.cmp(y.0));
        for (k, c) in ks { let p = if path.is_empty() { k.clone() } else { format!("{path}:{k}") }; go(c, &p, out); }
    }
    let mut v = vec![]; go(&j.master, "", &mut v); v
}
fn acct_of(j: &Journal) -> HashMap<usize, String> { tree(j).into_iter().map(|(n, a)| (a as *const Account as usize, n)).collect() }
fn chk_v(what: String, got: Option<&Amount>, want: Option<&V>, exact: bool) -> Res {
    match (got, want) {
        (None, None) => Ok(()),
        (Some(g), Some(w)) => { let g = av(g); if g.1 == w.1 && (g.0 == w.0 || (!exact && close(g.0, w.0))) { Ok(()) } else { Err(format!("{what}: got {} {:?}, expected {} {:?}", g.0, g.1, w.0, w.1)) } }
        (g, w) => Err(format!("{what}: got {:?}, expected {:?}", g.map(av), w)),
    }
}
const EXPLICIT: u8 = 1; const ELIDED: u8 = 2; const COST: u8 = 4; const ACCOUNT: u8 = 8; const STATED: u8 = 16;
fn chk_posts(j: &Journal, from: usize, xs: &[X], what: u8) -> Res {
    eq("number of transactions", j.xacts.len(), from + xs.len())?;
    let names = acct_of(j);
    for (k, x) in xs.iter().enumerate() {
        let g = &j.xacts[from + k];
        let e = expect(x).unwrap();
        eq(&format!("number of postings of transaction {k}"), g.posts.len(), e.len())?;
        for (n, (p, w)) in g.posts.iter().zip(&e).enumerate() {
            let w0 = format!("transaction {k} ({:?}) posting {n}", x.header());
            if what & ACCOUNT != 0 {
                let nm = names.get(&(p.account as usize)).ok_or_else(|| format!("{w0}: account link leads to no account of the journal"))?;
                eq(&format!("{w0} account"), nm, &w.account)?;
            }
            if (w.explicit && what & EXPLICIT != 0) || (!w.explicit && what & ELIDED != 0) { chk_v(format!("{w0} amount"), p.amount.as_ref(), w.amount.as_ref(), true)?; }
            if what & COST != 0 || (what & STATED != 0 && x.posts[n].cost.is_some()) { chk_v(format!("{w0} cost"), p.cost.as_ref(), w.cost.as_ref(), w.exact)?; }
        }
    }
    Ok(())
}
fn syms_for<'a>(r: &mut Rng) -> Vec<&'a str> { let mut v: Vec<&str> = SYMS.to_vec(); r.shuffle(&mut v); let n = r.r(1, 5); v.truncate(n); v }
fn size(i: u64) -> usize { match i { 0..=40 => 2, 41..=400 => 4, _ => 8 } }
fn xs_text(r: &mut Rng, n: usize, c: &Cfg) -> (Vec<X>, String) {
    let s = syms_for(r);
    let xs: Vec<X> = (0..n).map(|_| xact(r, c, &s)).collect();
    let t = journal_text(r, &xs);
    (xs, t)
}

// ------------------------------------------------------------------ C01
fn c01(r: &mut Rng, i: u64) -> Case {
    if r.p(1, 5) {
        // refusals: one posting, two elided, one elided against several commodities
        let mut x = X::new(&date(r), "P");
        let kind = r.n(3);
        let n = match kind { 0 => 1, _ => r.r(2, 5) };
        for _ in 0..n { let mut p = P::new(&account(r, false)); let q = nz_number(r); p.amt = Some(amt(r, q, "EUR")); x.posts.push(p); }
        match kind {
            0 => if r.p(1, 2) { x.posts[0].amt = None },
            1 => { let a = r.n(n); let b = (a + 1 + r.n(n - 1)) % n; x.posts[a].amt = None; x.posts[b].amt = None; }
            _ => { let q = nz_number(r); let mut p = P::new("O"); p.amt = Some(amt(r, q, "USD")); let at = r.n(x.posts.len() + 1); x.posts.insert(at, p); let at = r.n(x.posts.len() + 1); x.posts.insert(at, P::new("N")); }
        }
        let text = x.text("\n");
        return case(text.clone(), move || {
            let mut j = Journal::new();
            if refused(|| parse_text(&text, &mut j)) { return Ok(()); }
            if j.xacts.iter().any(|x| x.posts.iter().any(|p| p.amount.is_some() && false)) { return Ok(()); }
            Err(format!("accepted a transaction that cannot be completed; amounts: {:?}", j.all_posts().iter().map(|p| p.amount.as_ref().map(av)).collect::<Vec<_>>()))
        });
    }
    let c = Cfg { maxposts: size(i), elide: 10, two: 0, multi: 0, bare: 2, lots: 1, ..PLAIN };
    let n = r.r(1, 3);
    let (xs, text) = xs_text(r, n, &c);
    case(text.clone(), move || {
        let j = read_ok(&text)?;
        chk_posts(&j, 0, &xs, EXPLICIT | ELIDED | STATED | ACCOUNT)?;
        chk_notes(&j, 0, &xs)?;
        // the sum is zero
        for (k, x) in j.xacts.iter().enumerate() {
            if xs[k].posts.iter().all(|p| p.amt.is_some()) { continue; }
            let mut s: BTreeMap<String, Decimal> = BTreeMap::new();
            for p in &x.posts { let v = av(p.cost.as_ref().or(p.amount.as_ref()).ok_or("posting without an amount")?); *s.entry(v.1).or_default() += v.0; }
            if s.values().any(|v| *v != Decimal::ZERO) { return Err(format!("transaction {k} does not sum to zero: {s:?}")); }
        }
        Ok(())
    })
}
fn chk_notes(j: &Journal, from: usize, xs: &[X]) -> Res {
    for (k, x) in xs.iter().enumerate() {
        let g = &j.xacts[from + k];
        let want = x.comments.iter().rev().map(|c| c.trim().to_string()).find(|c| !c.is_empty()).or(x.note.clone());
        eq(&format!("note of transaction {k}"), &g.note, &want)?;
        for (n, p) in x.posts.iter().enumerate() {
            let want = p.comments.iter().rev().map(|c| c.trim().to_string()).find(|c| !c.is_empty());
            if want.is_some() { eq(&format!("note of transaction {k} posting {n}"), &g.posts[n].note, &want)?; }
            else if p.note.is_none() { eq(&format!("note of transaction {k} posting {n}"), &g.posts[n].note, &None)?; }
        }
    }
    Ok(())
}
// ------------------------------------------------------------------ C02
fn c02(r: &mut Rng, i: u64) -> Case {
    let n = r.r(1, if i < 100 { 1 } else { 4 });
    let s = syms_for(r); let s: Vec<&str> = if s.len() < 2 { vec!["EUR", "USD"] } else { s };
    let mut xs = vec![];
    for _ in 0..n {
        let c = match r.n(4) { 0 => Cfg { maxposts: size(i), costs: 6, two: 0, multi: 0, bare: 0, ..PLAIN }, 1 => Cfg { maxposts: size(i), costs: 0, two: 0, multi: 6, bare: 0, ..PLAIN }, _ => Cfg { maxposts: size(i), costs: 0, two: 6, multi: 0, bare: 0, ..PLAIN } };
        xs.push(xact(r, &c, &s));
    }
    let text = journal_text(r, &xs);
    case(text.clone(), move || {
        let j = read_ok(&text)?;
        chk_posts(&j, 0, &xs, EXPLICIT | COST)?;
        #[cfg(ledger_verif)]
        {
            let want = expect_prices(&xs);
            chk_prices(&j.commodity_pool, &want.into_iter().map(|((a, b, dt), v)| ((a, b, format!("{dt} 00:00:00")), v)).collect(), false)?;
        }
        Ok(())
    })
}
#[cfg(ledger_verif)]
type PM = BTreeMap<(String, String, String), Decimal>;
#[cfg(ledger_verif)]
fn got_prices(pool: &CommodityPool) -> Result<PM, String> {
    let byptr: HashMap<usize, String> = verif::symbols(pool).into_iter().map(|s| (pool.find(&s).unwrap() as *const Commodity as usize, s)).collect();
    let nm = |p: *const Commodity| byptr.get(&(p as usize)).cloned().ok_or_else(|| "a price of an unknown commodity".to_string());
    let mut m = PM::new();
    for (a, b, t, q) in verif::prices(pool) {
        if m.insert((nm(a)?, nm(b)?, t.format("%Y-%m-%d %H:%M:%S").to_string()), qd(&q)).is_some() { return Err(format!("two prices for one pair and time {t}")); }
    }
    Ok(m)
}
#[cfg(ledger_verif)]
fn chk_prices(pool: &CommodityPool, want: &PM, exact: bool) -> Res {
    let got = got_prices(pool)?;
    for (k, v) in want { match got.get(k) { None => return Err(format!("price {k:?} not recorded (expected {v}); recorded: {got:?}")), Some(g) => if !(g == v || (!exact && close(*g, *v))) { return Err(format!("price {k:?}: got {g}, expected {v}")); } } }
    for (k, v) in &got { if !want.contains_key(k) { return Err(format!("price {k:?} = {v} recorded, expected none")); } }
    Ok(())
}
// ------------------------------------------------------------------ C03
fn c03(r: &mut Rng, i: u64) -> Case {
    let mut ops: Vec<(u8, String, usize, String, usize)> = vec![];
    for _ in 0..r.r(1, if i < 50 { 3 } else { 12 }) { ops.push((r.n(12) as u8, number(r), r.n(4), number(r), r.n(4))); }
    let mut bal: Vec<(u8, String, usize)> = vec![];
    for _ in 0..r.r(1, if i < 50 { 4 } else { 20 }) { bal.push((r.n(4) as u8, number(r), r.n(5))); }
    let text = format!("operators {ops:?}; balance {bal:?}");
    case(text, move || {
        let cs: Vec<Commodity> = ["AAA", "BBB", "CCC", "DDD"].iter().map(|s| Commodity::new(s)).collect();
        let cp = |k: usize| if k == 0 { None } else { Some(&cs[k - 1] as *const Commodity) };
        let nm = |k: usize| if k == 0 { String::new() } else { cs[k - 1].symbol.clone() };
        let mk = |q: &str, k: usize| Amount::new(Quantity::from_str(q).unwrap(), cp(k));
        for (op, q1, k1, q2, k2) in &ops {
            let (a, b) = (mk(q1, *k1), mk(q2, *k2));
            let (x, y) = (d(q1), d(q2));
            let comb = if *k1 == 0 { nm(*k2) } else { nm(*k1) };
            let w = format!("op {op} on ({q1} {:?}) and ({q2} {:?})", nm(*k1), nm(*k2));
            let res: Option<(Result<Amount, String>, Option<V>)> = match op {
                0 => Some((attempt(|| a + b), if k1 == k2 { Some((x + y, nm(*k1))) } else { None })),
                1 => Some((attempt(|| { let mut t = a; t += b; t }), if k1 == k2 { Some((x + y, nm(*k1))) } else { None })),
                2 => Some((attempt(|| { let mut t = a; t -= b; t }), if k1 == k2 { Some((x - y, nm(*k1))) } else { None })),
                3 => Some((attempt(|| a * b), Some((x * y, comb)))),
                4 => Some((attempt(|| { let mut t = a; t *= b; t }), Some((x * y, comb)))),
                5 if y != Decimal::ZERO => Some((attempt(|| a / b), Some((x / y, comb)))),
                6 => Some((attempt(|| a.inverse()), Some((-x, nm(*k1))))),
                7 => Some((attempt(|| { let mut t = a; t.invert(); t }), Some((-x, nm(*k1))))),
                8 => Some((attempt(|| a.abs()), Some((x.abs(), nm(*k1))))),
                9 => Some((attempt(|| { let mut t = a; Amount::add(&mut t, &b); t }), if k1 == k2 { Some((x + y, nm(*k1))) } else { None })),
                10 => Some((attempt(|| { let mut t = a; t.remove_commodity(); t }), Some((x, String::new())))),
                11 => { eq(&format!("{w} is_zero"), a.is_zero(), x == Decimal::ZERO)?; eq(&format!("{w} is_null"), a.is_null(), x == Decimal::ZERO && *k1 == 0)?; Some((attempt(|| Amount::copy_from(&a)), Some((x, nm(*k1))))) }
                _ => None,
            };
            if let Some((g, want)) = res { match (g, want) {
                (Ok(g), Some(v)) => chk_v(w.clone(), Some(&g), Some(&v), true)?,
                (Err(_), None) => (),
                (Ok(g), None) => return Err(format!("{w}: amounts of different commodities were combined into {:?}", av(&g))),
                (Err(e), Some(v)) => return Err(format!("{w}: {e}, expected {v:?}")),
            } }
            // the operands are unchanged
            chk_v(format!("{w} operand"), Some(&a), Some(&(x, nm(*k1))), true)?;
            // quantities
            let (p, q) = (Quantity::from_str(q1).unwrap(), Quantity::from_str(q2).unwrap());
            eq("quantity +", qd(&(p + q)), x + y)?; eq("quantity *", qd(&(p * q)), x * y)?;
            { let mut t = p; t += q; eq("quantity +=", qd(&t), x + y)?; let mut t = p; t -= q; eq("quantity -=", qd(&t), x - y)?; let mut t = p; t *= q; eq("quantity *=", qd(&t), x * y)?; }
            if y != Decimal::ZERO { eq("quantity /", qd(&(p / q)), x / y)?; }
        }
        // balances
        let mut want: Vec<V> = vec![];
        let mut step = |k: usize, q: Decimal| { match want.iter_mut().find(|v| v.1 == nm(k)) { Some(v) => v.0 += q, None => want.push((q, nm(k))) } want.clone() };
        #[cfg(ledger_verif)]
        {
            let mut b = verif::Balance::new();
            let mut pending: Vec<(String, usize)> = vec![];
            for (op, q, k) in &bal {
                let a = mk(q, *k);
                let w = match op {
                    0 => { b.add(&a); step(*k, d(q)) }
                    1 => { b += a; step(*k, d(q)) }
                    2 => { b -= a; step(*k, -d(q)) }
                    _ => { // a whole balance
                        pending.push((q.clone(), *k));
                        let mut o = verif::Balance::new(); let mut ow: Vec<V> = vec![];
                        for (q, k) in &pending { o.add(&mk(q, *k)); match ow.iter_mut().find(|v| v.1 == nm(*k)) { Some(v) => v.0 += d(q), None => ow.push((d(q), nm(*k))) } }
                        b += o;
                        let mut l = vec![];
                        for (q, n) in ow { let k = if n.is_empty() { 0 } else { 1 + cs.iter().position(|c| c.symbol == n).unwrap() }; l = step(k, q); }
                        l
                    }
                };
                let g: Vec<V> = b.amounts.iter().map(av).collect();
                eq(&format!("balance after {bal:?}"), g, w)?;
            }
        }
        #[cfg(not(ledger_verif))]
        {
            // through an account's own balance
            let mut acc = Account::new("a");
            let posts: Vec<Post> = bal.iter().map(|(_, q, k)| Post::new(std::ptr::null(), std::ptr::null(), Some(mk(q, *k)), None, None)).collect();
            for p in &posts { acc.posts.push(p); }
            let mut w = vec![]; for (_, q, k) in &bal { w = step(*k, d(q)); }
            eq("own balance", acc.amount().amounts.iter().map(av).collect::<Vec<_>>(), w)?;
        }
        Ok(())
    })
}
// ------------------------------------------------------------------ C04
fn own_sums(xs: &[X]) -> BTreeMap<String, BTreeMap<String, Decimal>> {
    let mut m: BTreeMap<String, BTreeMap<String, Decimal>> = BTreeMap::new();
    for x in xs { for p in expect(x).unwrap() { let v = p.amount.unwrap(); *m.entry(p.account).or_default().entry(v.1).or_default() += v.0; } }
    m
}
fn all_accounts(xs: &[X]) -> BTreeSet<String> {
    let mut s = BTreeSet::new(); s.insert(String::new());
    for x in xs { for p in &x.posts { let v: Vec<&str> = p.account.split(':').collect(); for k in 1..=v.len() { s.insert(v[..k].join(":")); } } }
    s
}
fn nonzero(m: &BTreeMap<String, Decimal>) -> BTreeMap<String, Decimal> { m.iter().filter(|(_, v)| **v != Decimal::ZERO).map(|(k, v)| (k.clone(), *v)).collect() }
fn bal_map(v: &[Amount]) -> Result<BTreeMap<String, Decimal>, String> {
    let mut m = BTreeMap::new();
    for a in v { let (q, s) = av(a); if m.insert(s.clone(), q).is_some() { return Err(format!("two entries for {s:?} in a balance")); } }
    Ok(nonzero(&m))
}
/// expected pre-order with siblings in name order
fn preorder(accts: &BTreeSet<String>) -> Vec<String> {
    let mut v: Vec<Vec<String>> = accts.iter().map(|a| if a.is_empty() { vec![] } else { a.split(':').map(|s| s.to_string()).collect() }).collect();
    v.sort(); v.into_iter().map(|p| p.join(":")).collect()
}
fn totals(xs: &[X]) -> BTreeMap<String, BTreeMap<String, Decimal>> {
    let own = own_sums(xs);
    let mut t = BTreeMap::new();
    for a in all_accounts(xs) {
        let mut m: BTreeMap<String, Decimal> = BTreeMap::new();
        for (n, b) in &own { if a.is_empty() || n == &a || n.starts_with(&format!("{a}:")) { for (s, q) in b { *m.entry(s.clone()).or_default() += *q; } } }
        t.insert(a, m);
    }
    t
}
/// amounts printed in a report line: numbers, each with an optional symbol after a blank
fn parse_amounts(s: &str) -> Result<BTreeMap<String, Decimal>, String> {
    let c: Vec<char> = s.chars().collect(); let mut i = 0; let mut m = BTreeMap::new();
    while i < c.len() {
        if c[i] == ' ' || c[i] == ',' { i += 1; continue; }
        let st = i; while i < c.len() && (c[i].is_ascii_digit() || c[i] == '-' || c[i] == '.') { i += 1; }
        if st == i { return Err(format!("unreadable balance {s:?}")); }
        let q: String = c[st..i].iter().collect();
        let mut sy = String::new();
        if i < c.len() && c[i] == ' ' { i += 1; }
        while i < c.len() && !(c[i].is_ascii_digit() || c[i] == '-' || c[i] == ' ' || c[i] == ',') { sy.push(c[i]); i += 1; }
        let q: Decimal = q.parse().map_err(|_| format!("unreadable number {q:?} in {s:?}"))?;
        if m.insert(sy.clone(), q).is_some() { return Err(format!("commodity {sy:?} twice in {s:?}")); }
    }
    Ok(nonzero(&m))
}
/// With the journal at hand the printed total is compared with the account's total as printed piece by piece (a bare amount runs into the next one).
fn chk_report(lines: &[String], xs: &[X], j: Option<&Journal>) -> Res {
    let shown: HashMap<String, String> = j.map(|j| tree(j).into_iter().map(|(n, a)| (n, a.total().amounts.iter().map(|m| { let s = sym(m); if s.is_empty() { m.quantity.to_string() } else { format!("{} {}", m.quantity, s) } }).collect::<String>())).collect()).unwrap_or_default();
    let order = preorder(&all_accounts(xs));
    let tot = totals(xs);
    eq("number of lines of the report", lines.len(), order.len())?;
    for (l, a) in lines.iter().zip(&order) {
        let pre = format!("Account {a} has balance ");
        let rest = l.strip_prefix(&pre).or(if l == pre.trim_end() { Some("") } else { None }).ok_or_else(|| format!("line {l:?}: expected account {a:?} here"))?;
        let plain = |t: &str| t.replace(", ", "").replace(' ', "");
        if j.is_some() { eq(&format!("total of {a:?} in line {l:?}"), plain(rest), plain(&shown[a]))?; }
        else { eq(&format!("total of {a:?} in line {l:?}"), parse_amounts(rest)?, nonzero(&tot[a]))?; }
    }
    Ok(())
}
fn chk_totals(j: &Journal, xs: &[X]) -> Res {
    let (own, tot) = (own_sums(xs), totals(xs));
    let t = tree(j);
    eq("accounts", t.iter().map(|x| x.0.clone()).collect::<BTreeSet<_>>(), all_accounts(xs))?;
    let e = BTreeMap::new();
    for (n, a) in &t {
        eq(&format!("own balance of {n:?}"), bal_map(&a.amount().amounts)?, nonzero(own.get(n).unwrap_or(&e)))?;
        eq(&format!("total of {n:?}"), bal_map(&a.total().amounts)?, nonzero(&tot[n]))?;
    }
    Ok(())
}
fn c04(r: &mut Rng, i: u64) -> Case {
    let n = match i { 0..=30 => r.r(1, 2), _ => r.r(1, 12) };
    let c = Cfg { maxposts: size(i), wide: r.p(1, 3), bare: 1, ..PLAIN };
    let (xs, text) = xs_text(r, n, &c);
    // registered accounts without postings count too
    case(text.clone(), move || {
        let j = read_ok(&text)?;
        chk_links(&j)?;
        chk_totals(&j, &xs)?;
        chk_report(&report::balance_report(&j), &xs, Some(&j))?;
        let mut names: Vec<String> = all_accounts(&xs).iter().map(|a| a.rsplit(':').next().unwrap().to_string()).collect(); names.sort();
        let mut got = report::report_accounts(&j); got.sort();
        eq("account names", got, names)?;
        let flat: Vec<usize> = j.master.flatten_account_tree().iter().map(|a| *a as *const Account as usize).collect();
        let mut f2 = flat.clone(); f2.sort(); f2.dedup();
        let mut t: Vec<usize> = tree(&j).iter().map(|x| x.1 as *const Account as usize).collect(); t.sort();
        eq("accounts of the flattened tree", f2, t)?;
        eq("flattened accounts listed once", flat.len(), all_accounts(&xs).len())?;
        Ok(())
    })
}
// ------------------------------------------------------------------ C05
/// the same part with something added that must not be dropped
fn odd_part(r: &mut Rng, p: &str) -> String {
    match r.n(14) {
        0 => format!("{p} "), 1 => format!(" {p}"), 2 => format!("\t{p}"), 3 => format!("\"{p}\""), 4 => format!("{p};"), 5 => format!("({p})"), 6 => format!("[{p}]"),
        7 => p.to_lowercase(), 8 => p.to_uppercase(), 9 => format!("{p}\u{a0}"), 10 => format!("{p}/x"), 11 => format!("{p}  {p}"), 12 => p.repeat(r.r(2, 30)), _ => p.to_string(),
    }
}
fn c05(r: &mut Rng, i: u64) -> Case {
    let k = match i { 0..=20 => r.r(1, 4), 21..=300 => r.r(2, 15), _ => r.r(5, 80) };
    let wide = r.p(1, 2);
    let odd = r.p(1, 2);
    let name = |r: &mut Rng| { let a = account(r, wide); if odd && r.p(1, 2) { a.split(':').map(|p| odd_part(r, p)).collect::<Vec<_>>().join(":") } else { a } };
    let mut ops: Vec<(u8, String)> = (0..k).map(|_| (r.n(5) as u8, name(r))).collect();
    // look-ups below existing names
    for n in 0..ops.len() { if r.p(1, 3) { let s = if r.p(1, 4) { let k = r.n(PARTS.len()); format!("{}{}", ops[n].1, PARTS[k]) } else { let k = r.n(PARTS.len()); let e = if odd { odd_part(r, PARTS[k]) } else { PARTS[k].to_string() }; format!("{}:{}", ops[n].1, e) }; let at = r.n(ops.len()); ops.insert(at, (r.n(5) as u8, s)); } }
    case(format!("{ops:?} (0,1,4: register, 2: look up, 3: full names)"), move || {
        let mut j = Journal::new();
        let mut known: BTreeMap<String, usize> = BTreeMap::new();
        for (op, name) in &ops {
            match op {
                0 | 1 | 4 => {
                    let p = j.register_account(name).ok_or("register_account returned None")?;
                    if let Some(q) = known.get(name) { if *q != p as usize { return Err(format!("{name:?} registered again gives another account")); } }
                    let v: Vec<&str> = name.split(':').collect();
                    for k in 1..=v.len() { let n = v[..k].join(":"); if !known.contains_key(&n) { known.insert(n, 0); } }
                    let t = tree(&j);
                    let m: BTreeMap<String, usize> = t.iter().filter(|x| !x.0.is_empty()).map(|x| (x.0.clone(), x.1 as *const Account as usize)).collect();
                    eq(&format!("accounts after registering {name:?}"), m.keys().cloned().collect::<Vec<_>>(), known.keys().cloned().collect::<Vec<_>>())?;
                    for (n, a) in &m { let o = known[n]; if o != 0 && o != *a { return Err(format!("account {n:?} was replaced when registering {name:?}")); } }
                    known = m;
                    eq(&format!("registered account {name:?}"), p as usize, known[name])?;
                }
                2 => {
                    let got = attempt(|| j.find_account(name).map(|a| a as *const Account as usize)).map_err(|e| format!("look-up of {name:?} {e}"))?;
                    eq(&format!("look-up of {name:?}"), got, known.get(name).copied())?;
                    let m: Vec<String> = tree(&j).into_iter().map(|x| x.0).filter(|x| !x.is_empty()).collect::<BTreeSet<_>>().into_iter().collect();
                    eq(&format!("accounts after looking up {name:?}"), m, known.keys().cloned().collect::<Vec<_>>())?;
                }
                _ => { for (n, a) in tree(&j) { eq(&format!("full name of {n:?}"), a.fullname(), &n)?; } }
            }
        }
        for (n, a) in tree(&j) {
            eq(&format!("full name of {n:?}"), a.fullname(), &n)?;
            eq("name", a.name.as_str(), n.rsplit(':').next().unwrap())?;
            for c in a.accounts.values() { chk_parent(c, a)?; }
            if !n.is_empty() { eq(&format!("look-up of {n:?}"), j.find_account(&n).map(|x| x as *const Account as usize), Some(a as *const Account as usize))?; }
        }
        #[cfg(ledger_verif)]
        if !verif::parent_ptr(&j.master).is_null() { return Err("the master account has a parent".into()); }
        Ok(())
    })
}
#[allow(unused_variables)]
fn chk_parent(c: &Account, a: &Account) -> Res {
    #[cfg(ledger_verif)]
    if verif::parent_ptr(c) != a as *const Account { return Err(format!("parent link of {:?} does not lead to {:?}", c.name, a.name)); }
    Ok(())
}
// ------------------------------------------------------------------ C06
/// a different symbol that resembles the given one
fn odd_sym(r: &mut Rng, p: &str) -> String {
    match r.n(14) {
        0 => format!("\"{p}\""), 1 => format!("\"{p}"), 2 => format!("{p} "), 3 => format!(" {p}"), 4 => p.to_lowercase(), 5 => format!("{p}."), 6 => format!("'{p}'"), 7 => format!("-{p}"),
        8 => format!("{p};"), 9 => format!("\"{p} {}\"", r.n(3)), 10 => format!("{p}\u{301}"), 11 => "\"\"".to_string(), 12 => p.repeat(r.r(2, 20)), _ => format!("{{{p}}}"),
    }
}
fn c06(r: &mut Rng, i: u64) -> Case {
    let k = match i { 0..=20 => r.r(1, 4), 21..=300 => r.r(2, 15), _ => r.r(5, 120) };
    let range = r.r(2, 80);
    let ops: Vec<(u8, String, String, Option<String>)> = (0..k).map(|_| {
        let s = match r.n(7) { 0 => String::new(), 1 => r.pick(MORE).to_string(), 2 => r.pick(SYMS).to_string(), 3 => { let k = r.n(SYMS.len().min(4)); odd_sym(r, SYMS[k]) } _ => format!("S{}", r.n(range)) };
        let dt = if r.p(1, 3) { Some(date(r)) } else { None };
        // a lot without a price has the empty quantity
        (r.n(5) as u8, s, if r.p(1, 6) { String::new() } else { pos_number(r) }, dt)
    }).collect();
    case(format!("{ops:?} (0,1: find_or_create, 2: with a lot, 3: find, 4: parse an amount)"), move || {
        let mut j = Journal::new();
        let mut known: BTreeMap<String, usize> = BTreeMap::new();
        let mut lots: BTreeMap<String, (Option<Decimal>, Option<chrono::NaiveDate>)> = BTreeMap::new();
        for (op, s, q, dt) in &ops {
            let p: Option<usize> = match op {
                0 | 1 => Some(j.commodity_pool.find_or_create(s, None) as usize),
                2 => {
                    #[cfg(ledger_verif)]
                    {
                        let price = if q.is_empty() { None } else { Some(d(q)) };
                        let on = dt.as_ref().map(|x| chrono::NaiveDate::parse_from_str(x, "%Y-%m-%d").unwrap());
                        if !s.is_empty() { lots.entry(s.clone()).or_insert((price, on)); }
                        let pa = price.map(|_| Amount::new(Quantity::from_str(q).unwrap(), None));
                        Some(j.commodity_pool.find_or_create(s, Some(verif::Annotation::new(pa, on))) as usize)
                    }
                    #[cfg(not(ledger_verif))]
                    { Some(j.commodity_pool.find_or_create(s, None) as usize) }
                }
                3 => { if s.is_empty() { continue; } let f = j.commodity_pool.find(s).map(|c| c as *const Commodity as usize); eq(&format!("look-up of {s:?}"), f, known.get(s).copied())?; None }
                _ => { let q = if q.is_empty() { "7" } else { q }; let a = ledger_rs_lib::parser::parse_amount_parts(q, s, &mut j).ok_or("no amount")?; eq("symbol of the amount", sym(&a), s.clone())?; Some(a.get_commodity().map(|c| c as *const Commodity as usize).unwrap_or(0)) }
            };
            if let Some(p) = p {
                if s.is_empty() { eq("commodity of the empty symbol", p, 0)?; }
                else { match known.get(s) { Some(k) => eq(&format!("commodity of {s:?} used again"), p, *k)?, None => { if known.values().any(|v| *v == p) { return Err(format!("{s:?} denotes the commodity of another symbol")); } known.insert(s.clone(), p); } } }
            }
            eq("number of commodities", j.commodity_pool.len(), known.len())?;
            for (n, p) in &known {
                let c = j.commodity_pool.find(n).ok_or_else(|| format!("{n:?} is gone"))?;
                eq(&format!("address of {n:?}"), c as *const Commodity as usize, *p)?;
                eq("symbol", c.symbol.as_str(), n)?;
            }
            #[cfg(ledger_verif)]
            {
                let nodes: Vec<usize> = verif::nodes(&j.commodity_pool).iter().map(|p| *p as usize).collect();
                let mut a = nodes.clone(); a.sort(); let mut b: Vec<usize> = known.values().copied().collect(); b.sort();
                eq("nodes of the price history", a, b)?;
                for n in known.keys() {
                    let c = j.commodity_pool.find(n).unwrap();
                    let ix = c.graph_index.ok_or_else(|| format!("{n:?} has no node"))?;
                    if j.commodity_pool.get_by_index(ix) as *const Commodity != c as *const Commodity { return Err(format!("the node of {n:?} belongs to another commodity")); }
                    let l = verif::annotation(&j.commodity_pool, n).map(|a| (a.0.map(|x| qd(&x.quantity)), a.1));
                    eq(&format!("lot of {n:?}"), l, lots.get(n).cloned())?;
                }
            }
        }
        let _ = (&mut lots, &ops.first().map(|o: &(u8, String, String, Option<String>)| o.3.clone()));
        Ok(())
    })
}
// ------------------------------------------------------------------ C07
fn post_line(r: &mut Rng) -> P {
    let mut p = P::new(&account(r, false));
    p.gap = r.pick(&["  ", "   ", "     ", "  \t", "   \t "]).to_string();
    p.indent = r.pick(&["", "    ", "  ", "\t"]).to_string();
    p.trail = r.pick(&["", "", " ", "  ", "\n", "\r\n", "   \n"]).to_string();
    let sm = |r: &mut Rng| if r.p(1, 10) { "".to_string() } else if r.p(1, 12) { r.pick(MORE).to_string() } else { r.pick(SYMS).to_string() };
    if r.p(7, 8) {
        let q = if r.p(1, 6) { r.pick(&["1,000.00", ".5", "-.5", "1.", "0", "-0", "12345678901234567890.12345678"]).to_string() } else { number(r) };
        let s = sm(r);
        let mut a = amt(r, q, &s); a.sp = blanks(r); if a.sym.is_empty() { a.nf = true; }
        p.amt = Some(a);
        if r.p(1, 3) && !s.is_empty() {
            let q = number(r); let s = sm(r); let mut l = amt(r, q, &s); if l.sym.is_empty() { l.nf = true; } let dt = date(r);
            p.lot = Lot { price: if r.p(2, 3) { Some(l) } else { None }, date: if r.p(2, 3) { Some(dt) } else { None }, date_first: r.p(1, 2), blank: blanks(r) };
        }
        if r.p(1, 2) { let q = number(r); let s = sm(r); let mut c = amt(r, q, &s); c.sp = blanks(r); if c.sym.is_empty() { c.nf = true; } p.cost = Some(Cost { per_unit: r.p(1, 2), amt: c, b1: blanks(r), b2: blanks(r) }); }
    }
    if r.p(1, 3) { p.note = Some(word_note(r)); }
    p
}
fn c07(r: &mut Rng, _i: u64) -> Case {
    if r.p(1, 20) {
        let l = format!("{}{}{}", r.pick(&["", " ", "    ", "\t"]), r.pick(&["", ";", "; note", ";  10 EUR"]), r.pick(&["", "\n", "\r\n"]));
        return case(format!("{l:?} (no account)"), move || {
            #[cfg(ledger_verif)]
            if !refused(|| verif::scan_post(&l)) { return Err(format!("a line without an account was accepted: {:?}", verif::scan_post(&l))); }
            let _ = &l;
            Ok(())
        });
    }
    let p = post_line(r);
    let line = format!("{}{}", p.indent, p.body());
    case(line.clone(), move || {
        let a = |x: &Option<Amt>| x.as_ref().map(|a| (a.q.clone(), a.sym.clone())).unwrap_or_default();
        let (q, s) = a(&p.amt);
        let (lq, ls) = a(&p.lot.price);
        let (cq, cs) = a(&p.cost.as_ref().map(|c| c.amt.clone()));
        let pu = p.cost.as_ref().map(|c| c.per_unit).unwrap_or(false);
        #[cfg(ledger_verif)]
        {
            let want = [p.account.clone(), q.clone(), s.clone(), lq.clone(), ls.clone(), p.lot.date.clone().unwrap_or_default(), cq.clone(), cs.clone(), pu.to_string()];
            eq("tokens (account, quantity, symbol, lot quantity, lot symbol, lot date, cost quantity, cost symbol, per unit)", attempt(|| verif::scan_post(&line))?, want)?;
        }
        if let Some(x) = &p.amt {
            let t = x.text();
            let (g, rest) = attempt(|| { let (g, rest) = scanner::scan_amount(&t); ((g.quantity.to_string(), g.symbol.to_string()), rest.to_string()) })?;
            eq(&format!("scan_amount({t:?})"), g, (x.q.clone(), x.sym.clone()))?; eq("rest", rest, String::new())?;
        }
        // the same line in a journal
        let valid = |s: &str| s.is_empty() || s.parse::<Decimal>().is_ok() && !s.ends_with('.') && !s.contains(",");
        let diff = p.cost.is_none() || (!s.is_empty() && !cs.is_empty() && cs != s);
        if valid(&q) && valid(&lq) && valid(&cq) && diff && !(p.amt.is_none() ) && !p.account.starts_with(';') {
            let trail = p.trail.clone();
            let nl = if trail.ends_with('\n') { "" } else { "\n" };
            // one elided posting completes it
            let text = format!("2023-01-01 P\n  {}{nl}  Other\n", p.body());
            let j = read_ok(&text)?;
            let x = X { posts: vec![p.clone(), P::new("Other")], ..X::new("2023-01-01", "P") };
            chk_posts(&j, 0, &[x], EXPLICIT | COST | ACCOUNT)?;
        }
        let _ = (pu, ls, lq);
        Ok(())
    })
}
// ------------------------------------------------------------------ C08
fn c08(r: &mut Rng, _i: u64) -> Case {
    let dt = date(r);
    let aux = if r.p(1, 3) { Some(date(r)) } else { None };
    let mut payee = if r.p(1, 5) { String::new() } else { words(r) };
    if r.p(1, 6) { payee = r.pick(&["a  b", "x   y", "a ;b", "=b", "  ", ";", "a;", "P  =", "2023-01-01", "ß", "-", "; x"]).trim().to_string(); }
    let note = if r.p(1, 2) { Some(word_note(r)) } else { None };
    let b = if payee.is_empty() { r.pick(&["", " ", ""]).to_string() } else { r.pick(&[" ", "  ", " ", "   ", "\t"]).to_string() };
    // two blanks in front of ';' would start the note
    let b = if payee.starts_with(';') && b != "\t" { " ".to_string() } else { b };
    let ending = r.pick(&["", "\n", "\r\n", " ", "  \n"]).to_string();
    let mut h = dt.clone(); if let Some(a) = &aux { h += "="; h += a; }
    h += &b; h += &payee;
    if let Some(n) = &note { h += *r.pick::<&str>(&["  ;", "  ; ", "   ; ", "  ;  "]); h += n; }
    h += &ending;
    case(format!("{h:?}"), move || {
        #[cfg(ledger_verif)]
        {
            let w: Vec<String> = vec![dt.clone(), aux.clone().unwrap_or_default(), payee.clone(), note.clone().unwrap_or_default()];
            eq("tokens", attempt(|| verif::scan_header(&h))?, w)?;
        }
        let text = format!("{}\n  A  1 EUR\n  B\n", h.trim_end_matches(|c| c == '\n' || c == '\r'));
        let j = read_ok(&text)?;
        eq("transactions", j.xacts.len(), 1)?;
        let x = &j.xacts[0];
        eq("date", x.date.map(|d| d.to_string()), Some(dt.clone()))?;
        eq("auxiliary date", x.aux_date.map(|d| d.to_string()), aux.clone())?;
        eq("payee", x.payee.clone(), if payee.is_empty() { "Unknown Payee".to_string() } else { payee.clone() })?;
        eq("note", x.note.clone(), note.clone())?;
        Ok(())
    })
}
// ------------------------------------------------------------------ C09
fn c09(r: &mut Rng, i: u64) -> Case {
    let n = if i < 20 { 1 } else { r.r(1, 14) };
    let ns = r.r(2, 6);
    // any word that does not start with a digit is a symbol
    let mut all: Vec<String> = SYMS.iter().chain(MORE.iter()).map(|s| s.to_string()).collect();
    for _ in 0..6 { let n = r.r(1, 4); let w: String = (0..n).map(|k| { let c = if k == 0 { r.pick(&['a', 'A', 'b', 'f', 'F', 'z', '-', '.', ':', '+', '٣', 'é', '_', '@', ';']) } else { r.pick(&['a', '1', '0', '-', '.', ':', 'X', 'ß', ';', '@', '"']) }; *c }).collect(); if !all.contains(&w) { all.push(w); } }
    if i > 30 { r.shuffle(&mut all); }
    let mut lines: Vec<(String, (String, String, String), String)> = vec![];
    let dates: Vec<String> = (0..3).map(|_| date(r)).collect();
    for _ in 0..n {
        let a = r.n(ns); let b = (a + 1 + r.n(ns - 1)) % ns;
        let dt = r.pick(&dates).clone();
        let t = if r.p(1, 2) { Some(format!("{:02}:{:02}:{:02}", r.n(24), r.n(60), r.n(60))) } else if r.p(1, 4) { Some("00:00:00".into()) } else { None };
        let q = pos_number(r);
        let g = |r: &mut Rng| r.pick(&[" ", " ", "  ", "\t", " \t "]).to_string();
        let mut l = format!("P{}{}{}", g(r), dt, g(r));
        if let Some(t) = &t { l += t; l += &g(r); }
        l += &all[a]; l += &g(r); l += &q; l += &g(r); l += &all[b]; l += *r.pick::<&str>(&["", "\n", "\r\n", " \n"]);
        lines.push((l, (all[a].to_string(), all[b].to_string(), format!("{dt} {}", t.unwrap_or("00:00:00".into()))), q));
    }
    case(format!("{:?}", lines.iter().map(|l| &l.0).collect::<Vec<_>>()), move || {
        let mut pool = CommodityPool::new();
        let mut want: BTreeMap<(String, String, String), Decimal> = BTreeMap::new();
        for (l, k, q) in &lines {
            attempt(|| pool.parse_price_directive(l)).map_err(|e| format!("{l:?} {e}"))?;
            want.insert(k.clone(), d(q));
            for s in [&k.0, &k.1] { if pool.find(s).is_none() { return Err(format!("commodity {s:?} does not exist after {l:?}")); } }
            #[cfg(ledger_verif)]
            chk_prices(&pool, &want, true).map_err(|e| format!("after {l:?}: {e}"))?;
        }
        Ok(())
    })
}
// ------------------------------------------------------------------ C10
fn c10(r: &mut Rng, i: u64) -> Case {
    let ns = r.r(2, if i < 50 { 4 } else { 8 });
    let ne = r.r(1, if i < 50 { 4 } else { 16 });
    let mut ps: Vec<(usize, usize, String, String)> = vec![];
    for _ in 0..ne {
        let a = r.n(ns); let b = (a + 1 + r.n(ns - 1)) % ns;
        for _ in 0..r.r(1, 3) { let t = format!("{} {:02}:{:02}:{:02}", date(r), r.n(24), r.n(60), r.n(60)); let q = match r.n(8) { 0 | 1 => "1".to_string(), 2 => "1.00".to_string(), 3 => "0.0000001".to_string(), 4 => format!("{}", r.r(1, 4)), _ => format!("{}.{}", r.n(20), r.r(1, 99)) }; ps.push((a, b, t, q)); }
    }
    if i % 7 == 3 { r.shuffle(&mut ps); }
    // few distinct times: equal dates and replaced prices
    if i % 6 == 2 { let few: Vec<String> = ps.iter().take(3).map(|p| p.2.clone()).collect(); for p in ps.iter_mut() { p.2 = r.pick(&few).clone(); } }
    if i % 5 == 1 { for p in ps.iter_mut() { p.2 = format!("29{}", &p.2[2..]); } }
    case(format!("{ps:?}"), move || {
        let mut pool = CommodityPool::new();
        let names: Vec<String> = (0..ns).map(|k| format!("S{}", (b'A' + k as u8) as char)).collect();
        let c: Vec<*const Commodity> = names.iter().map(|n| pool.find_or_create(n, None)).collect();
        let mut m: BTreeMap<(usize, usize), BTreeMap<String, Decimal>> = BTreeMap::new();
        for (a, b, t, q) in &ps {
            let dt = chrono::NaiveDateTime::parse_from_str(t, "%Y-%m-%d %H:%M:%S").unwrap();
            pool.add_price(c[*a], dt, Amount::new(Quantity::from_str(q).unwrap(), Some(c[*b])));
            m.entry((*a, *b)).or_default().insert(t.clone(), d(q));
        }
        #[cfg(ledger_verif)]
        {
            let before = got_prices(&pool)?;
            let mut want = PM::new();
            for ((a, b), h) in &m { for (t, q) in h { want.insert((names[*a].clone(), names[*b].clone(), t.clone()), *q); } }
            chk_prices(&pool, &want, true)?;
            let now = chrono::NaiveDateTime::parse_from_str("2023-06-01 00:00:00", "%Y-%m-%d %H:%M:%S").unwrap();
            for a in 0..ns { for b in 0..ns { if a != b {
                // all shortest chains
                let mut layers: Vec<Vec<Vec<usize>>> = vec![vec![vec![a]]];
                let mut found: Vec<Vec<usize>> = vec![];
                let mut seen = BTreeSet::from([a]);
                while found.is_empty() && !layers.last().unwrap().is_empty() {
                    let mut nx = vec![]; let mut ns2 = BTreeSet::new();
                    for p in layers.last().unwrap() { for n in 0..ns { if m.contains_key(&(*p.last().unwrap(), n)) && !seen.contains(&n) { let mut q = p.clone(); q.push(n); ns2.insert(n); if n == b { found.push(q.clone()); } nx.push(q); } } }
                    seen.extend(ns2); layers.push(nx);
                }
                let got = attempt(|| verif::find_price(&pool, c[a], c[b], now)).map_err(|e| format!("look-up {}->{} {e}", names[a], names[b]))?;
                let w = format!("price of {} in {}", names[a], names[b]);
                match got {
                    None => if !found.is_empty() { return Err(format!("{w}: no result, expected a chain {:?}", found[0])); },
                    Some((t, p)) => {
                        if found.is_empty() { return Err(format!("{w}: got {:?}, expected none", av(&p))); }
                        let ts = t.format("%Y-%m-%d %H:%M:%S").to_string();
                        let cand: Vec<(Decimal, String)> = found.iter().map(|ch| {
                            let legs: Vec<(&String, &Decimal)> = ch.windows(2).map(|x| m[&(x[0], x[1])].iter().next_back().unwrap()).collect();
                            (legs.iter().fold(Decimal::ONE, |x, l| x * *l.1), legs.iter().map(|l| l.0.clone()).min().unwrap())
                        }).collect();
                        let (q, s) = av(&p);
                        if s != names[b] || !cand.iter().any(|(cq, ct)| close(*cq, q) && *ct == ts && (found[0].len() > 2 || *cq == q)) { return Err(format!("{w}: got {q} {s} at {ts}, expected one of {cand:?} in {}", names[b])); }
                        if verif::commodity_ptr(&p) != c[b] { return Err(format!("{w}: not the target commodity")); }
                    }
                }
            } } }
            eq("prices after looking up", got_prices(&pool)?, before)?;
        }
        let _ = m;
        Ok(())
    })
}
// ------------------------------------------------------------------ C11
fn c11(r: &mut Rng, _i: u64) -> Case {
    let q = number(r); let cq = number(r);
    let ck = r.n(4); // 0: no commodity, 1: the same, 2,3: another
    let pu = r.p(1, 2);
    let lot = r.n(4); // 0 none, 1 price, 2 date only, 3 price without commodity
    let lq = number(r);
    let dt = format!("{} {:02}:{:02}:00", date(r), r.n(24), r.n(60));
    case(format!("exchange {q} AAA for {cq} {} per_unit={pu} lot={lot} ({lq}) at {dt}", ["", "AAA", "BBB", "CCC"][ck]), move || {
        let mut pool = CommodityPool::new();
        let lc = pool.find_or_create("LLL", None);
        #[cfg(ledger_verif)]
        let a = {
            let l = Quantity::from_str(&lq).unwrap();
            let ann = match lot { 0 => None, 1 => Some(verif::Annotation::new(Some(Amount::new(l, Some(lc))), None)), 2 => Some(verif::Annotation::new(None, chrono::NaiveDate::from_ymd_opt(2023, 1, 1))), _ => Some(verif::Annotation::new(Some(Amount::new(l, None)), None)) };
            pool.find_or_create("AAA", ann)
        };
        #[cfg(not(ledger_verif))]
        let a = pool.find_or_create("AAA", None);
        let lot = if cfg!(ledger_verif) { lot } else { 0 };
        let b = pool.find_or_create("BBB", None); let c = pool.find_or_create("CCC", None);
        let csym = ["", "AAA", "BBB", "CCC"][ck];
        let amount = Amount::new(Quantity::from_str(&q).unwrap(), Some(a));
        let cost = Amount::new(Quantity::from_str(&cq).unwrap(), match ck { 0 => None, 1 => Some(a), 2 => Some(b), _ => Some(c) });
        let t = chrono::NaiveDateTime::parse_from_str(&dt, "%Y-%m-%d %H:%M:%S").unwrap();
        let (bd, np) = attempt(|| pool.exchange(&amount, &cost, pu, t))?;
        let (x, y) = (d(&q), d(&cq));
        chk_v("amount".into(), Some(&bd.amount), Some(&(x, "AAA".into())), true)?;
        let comb = |s: &str, o: &str| if s.is_empty() { o.to_string() } else { s.to_string() };
        let fin = if pu { (y * x.abs(), comb(csym, "AAA")) } else { (y, csym.to_string()) };
        chk_v("final cost".into(), Some(&bd.final_cost), Some(&fin), true)?;
        let basis = match lot { 1 => (d(&lq) * x, "LLL".to_string()), 3 => (d(&lq) * x, "AAA".to_string()), _ => fin.clone() };
        chk_v("basis cost".into(), Some(&bd.basis_cost), Some(&basis), true)?;
        let per = if pu || x == Decimal::ZERO { y.abs() } else { (y / x).abs() };
        match np {
            None => if per != Decimal::ZERO && csym != "AAA" { return Err(format!("no price offered, expected {per} {csym}")); },
            Some(p) => {
                if per == Decimal::ZERO || csym == "AAA" { return Err(format!("price {:?} offered, expected none", av(&p.price))); }
                chk_v("new price".into(), Some(&p.price), Some(&(per, csym.to_string())), false)?;
                if p.commodity != a { return Err("the new price is for another commodity".into()); }
                eq("time of the new price", p.datetime, t)?;
            }
        }
        eq("commodities", pool.len(), 4)?;
        #[cfg(ledger_verif)]
        chk_prices(&pool, &PM::new(), true).map_err(|e| format!("exchange recorded: {e}"))?;
        Ok(())
    })
}
// ------------------------------------------------------------------ C12
fn c12(r: &mut Rng, i: u64) -> Case {
    if r.p(1, 8) {
        let bad = r.pick(&["1.2.3", "--1", "1-2", "-", ".", "1,5", "1,000", "5-", "-.-", ",", "1..2", "999999999999999999999999999999"]).to_string();
        let place = r.n(4);
        let text = match place {
            0 => format!("2023-01-01 P\n  A  {bad} EUR\n  B\n"),
            1 => format!("2023-01-01 P\n  A  10 VEUR @ {bad} EUR\n  B\n"),
            2 => format!("2023-01-01 P\n  A  10 VEUR {{{bad} EUR}} @ 2 EUR\n  B\n"),
            _ => format!("2023-01-01 P\n  A  {bad} EUR\n  B  -5 EUR\n"),
        };
        return case(text.clone(), move || {
            let mut j = Journal::new();
            if refused(|| parse_text(&text, &mut j)) { Ok(()) } else { Err(format!("the invalid quantity {bad:?} was accepted: {:?}", j.all_posts().iter().map(|p| (p.amount.as_ref().map(av), p.cost.as_ref().map(av))).collect::<Vec<_>>())) }
        });
    }
    let c = Cfg { maxposts: size(i).min(5), costs: 5, lots: 3, two: 0, multi: 2, elide: 6, bare: 1, ..PLAIN };
    let n = r.r(1, 3);
    let s = syms_for(r);
    let mut xs: Vec<X> = (0..n).map(|_| xact(r, &c, &s)).collect();
    // long fractions
    if r.p(1, 4) {
        let mut q = format!("{}{}.", if r.p(1, 2) { "-" } else { "" }, r.r(0, 99)); for _ in 0..r.r(10, 26) { q.push((b'0' + r.n(10) as u8) as char); }
        for x in xs.iter_mut() { if x.posts.iter().all(|p| p.cost.is_none()) { let two = x.posts.len() == 2; if let Some(a) = x.posts[0].amt.as_mut() { if two && a.sym == s[0] { a.q = q.clone(); } } } }
    }
    let xs: Vec<X> = xs.into_iter().filter(|x| expect(x).is_some()).collect();
    let text = journal_text(r, &xs);
    case(text.clone(), move || {
        let j = read_ok(&text)?;
        chk_posts(&j, 0, &xs, EXPLICIT | STATED)?;
        #[cfg(ledger_verif)]
        {
            let mut lots: BTreeMap<String, Lot> = BTreeMap::new();
            let mut used: BTreeSet<String> = BTreeSet::new();
            for x in &xs { for p in &x.posts { if let Some(a) = &p.amt { used.insert(a.sym.clone()); if !a.sym.is_empty() && (p.lot.price.is_some() || p.lot.date.is_some()) { lots.entry(a.sym.clone()).or_insert(p.lot.clone()); } } } }
            for s in used { if s.is_empty() { continue; }
                let got = verif::annotation(&j.commodity_pool, &s);
                match lots.get(&s) {
                    None => if let Some((p, dt)) = got { if p.is_some() || dt.is_some() { return Err(format!("lot information for {s:?} that was not written")); } },
                    Some(l) => {
                        let (p, dt) = got.ok_or_else(|| format!("lot information of {s:?} lost"))?;
                        chk_v(format!("lot price of {s:?}"), p.as_ref(), l.price.as_ref().map(|a| (a.dec(), a.sym.clone())).as_ref(), true)?;
                        eq(&format!("lot date of {s:?}"), dt.map(|d| d.to_string()), l.date.clone())?;
                    }
                }
            }
        }
        Ok(())
    })
}
// ------------------------------------------------------------------ C13
fn c13(r: &mut Rng, i: u64) -> Case {
    if i % 4 != 0 || !cfg!(ledger_verif) && i % 2 == 1 {
        // separation alone
        let n = r.r(0, 7);
        let mut args: Vec<String> = vec![];
        for _ in 0..n {
            match r.n(8) {
                0 | 1 => { args.push("-f".into()); args.push(r.pick(&["a.ledger", "b.ledger", "-x", "-f", "", "c d", "ü"]).to_string()); }
                2 => { let k = r.r(2, 3); args.push(format!("-{}", "f".repeat(k))); for _ in 0..k { args.push(r.pick(&["a", "b", "c"]).to_string()); } }
                3 if r.p(1, 3) => args.push("-f".into()),
                4 if r.p(1, 2) => args.push(r.pick(&["-x", "-fx", "-xf", "-", "-b", "-g", "-F", "-é"]).to_string()),
                5 if r.p(1, 4) => args.push(r.pick(&["--", "--file", "--f"]).to_string()),
                _ => args.push(r.pick(&["b", "bal", "accounts", "Assets", "a-b", "", "f", "日本", "x"]).to_string()),
            }
        }
        return case(format!("{args:?}"), move || {
            // what the property asks for
            let want: Option<(Vec<String>, Vec<String>)> = (|| {
                let (mut c, mut f) = (vec![], vec![]); let mut k = 0;
                while k < args.len() {
                    let a = &args[k]; k += 1;
                    if !a.starts_with('-') { c.push(a.clone()); continue; }
                    if a.starts_with("--") || a == "-" { return None; }
                    for ch in a.chars().skip(1) { if k >= args.len() { return None; } let v = args[k].clone(); k += 1; if ch != 'f' { return None; } f.push(v); }
                }
                Some((c, f))
            })();
            #[cfg(ledger_verif)]
            {
                let got = attempt(|| verif::process_arguments(args.clone()));
                match (got, want) { (Ok(g), Some(w)) => eq("commands and files", g, w)?, (Err(_), None) => (), (Ok(g), None) => return Err(format!("accepted as {g:?}, should be refused")), (Err(e), Some(w)) => return Err(format!("{e}, expected {w:?}")) }
            }
            #[cfg(not(ledger_verif))]
            { if want.is_none() && !refused(|| ledger_rs_lib::run(args.clone())) { return Err("accepted, should be refused".into()); } }
            Ok(())
        });
    }
    // with files
    let nf = r.r(1, 3);
    let s = syms_for(r);
    let c = Cfg { maxposts: 3, bare: 0, ..PLAIN };
    let mut files: Vec<(String, Vec<X>, String)> = vec![];
    for k in 0..nf { let n = r.r(0, 3); let xs: Vec<X> = (0..n).map(|_| xact(r, &c, &s)).collect(); let t = journal_text(r, &xs); files.push((format!("f{k}.ledger"), xs, t)); }
    let mut order: Vec<usize> = (0..nf).collect(); if r.p(1, 2) { r.shuffle(&mut order); } if r.p(1, 5) { order.push(order[0]); }
    let verb = r.pick(&["b", "bal", "balance", "accounts", "a"]).to_string();
    let at = r.n(order.len() + 1);
    let clustered = r.p(1, 4);
    let text = format!("verb {verb:?} at {at}, files {:?} clustered={clustered}:\n{}", order, files.iter().map(|f| format!("--- {}\n{}", f.0, f.2)).collect::<Vec<_>>().join("\n"));
    case(text, move || {
        let dir = scratch();
        for (n, _, t) in &files { std::fs::write(dir.join(n), t).unwrap(); }
        let path = |k: usize| dir.join(&files[k].0).to_str().unwrap().to_string();
        let mut args: Vec<String> = vec![];
        if clustered {
            if at == 0 { args.push(verb.clone()); }
            args.push(format!("-{}", "f".repeat(order.len()))); for k in &order { args.push(path(*k)); }
            if at != 0 { args.push(verb.clone()); }
        } else {
            for (n, k) in order.iter().enumerate() { if n == at { args.push(verb.clone()); } args.push("-f".into()); args.push(path(*k)); }
            if at == order.len() { args.push(verb.clone()); }
        }
        let xs: Vec<X> = order.iter().flat_map(|k| files[*k].1.clone()).collect();
        let by_string = order.len() % 2 == 0;
        let out = attempt(|| if by_string { ledger_rs_lib::run_command(&args.join(" ")) } else { ledger_rs_lib::run(args.clone()) })?;
        if verb.starts_with('b') { chk_report(&out, &xs, None)?; }
        else { let mut names: Vec<String> = all_accounts(&xs).iter().map(|a| a.rsplit(':').next().unwrap().to_string()).collect(); names.sort(); let mut o = out; o.sort(); eq("accounts", o, names)?; }
        Ok(())
    })
}
// ------------------------------------------------------------------ C14
fn c14(r: &mut Rng, i: u64) -> Case {
    if r.p(1, 12) {
        // what cannot be read is refused, never read in part
        let bad = r.pick(&["[2023-99-99]", "[x]", "[2023-02-30]", "{1.2.3 EUR}", "[2023-13-01] {2 EUR}"]).to_string();
        let first = r.p(1, 2);
        let line = format!("  A:B  10 VEUR {bad} @ 2 EUR\n");
        let text = format!("2023-01-01 P\n{}{line}{}\n2023-01-02 Q\n  C  1 EUR\n  D\n", if first { "" } else { "  E  -20 EUR\n" }, if first { "  E  -20 EUR\n" } else { "" });
        return case(text.clone(), move || {
            let mut j = Journal::new();
            if refused(|| parse_text(&text, &mut j)) { return Ok(()); }
            eq("postings of the transactions", j.xacts.iter().map(|x| x.posts.len()).collect::<Vec<_>>(), vec![2, 2])
        });
    }
    let n = match i { 0..=30 => r.r(1, 2), _ => r.r(1, 10) };
    let c = Cfg { maxposts: size(i), comments: 3, notes: 2, ..PLAIN };
    let s = syms_for(r);
    let xs: Vec<X> = (0..n).map(|_| xact(r, &c, &s)).collect();
    let mode = r.n(4);
    let split = r.n(n + 1);
    let (t1, t2) = (journal_text(r, &xs[..split]), journal_text(r, &xs[split..]));
    let cut2 = if split < n { split + r.n(n - split) } else { split };
    let (t2a, t2b) = (journal_text(r, &xs[split..cut2]), journal_text(r, &xs[cut2..]));
    let all = journal_text(r, &xs);
    let nested = r.p(1, 2);
    // what the included file is called and how it is named
    let fname = r.pick(&["inc.ledger", "inc", "inc.txt", "2023", "prices.db", "a.b.c", "sub/inc.dat", "sub/more/part", "journal.LEDGER", "über.ledger", "inc~", ".hidden", "x-1_2.ledger"]).to_string();
    let relative = r.p(1, 3);
    let gap = r.pick(&[" ", "  ", "\t", "   "]).to_string();
    let pre = if r.p(1, 3) { r.n(8) } else { 0 };
    let shown = match mode { 0 | 1 => all.clone(), 2 => format!("{t1}\n--- then ---\n{t2}"), _ => format!("{t1}\n--- include{gap}{fname} (by a{} path{}) ---\n{t2a}\n--- after ---\n{t2b}", if relative { " relative" } else { "n absolute" }, if nested { ", from an included file" } else { "" }) };
    let shown = if pre == 0 { shown } else { format!("journal prepared with {pre} (1: commodities EUR, ZZ; 2: accounts Assets:Cash, Odd; 4: a text of comments)\n{shown}") };
    case(shown, move || {
        let mut j = Journal::new();
        if pre & 1 != 0 { j.commodity_pool.find_or_create("EUR", None); j.commodity_pool.find_or_create("ZZ", None); }
        if pre & 2 != 0 { j.register_account("Assets:Cash"); j.register_account("Odd"); }
        if pre & 4 != 0 { attempt(|| parse_text("\n; nothing here\n\n", &mut j)).map_err(|e| format!("reading comments {e}"))?; eq("transactions after reading comments", j.xacts.len(), 0)?; }
        match mode {
            0 => attempt(|| parse_text(&all, &mut j)).map_err(|e| format!("reading {e}"))?,
            1 => { let p = scratch().join("one.ledger"); std::fs::write(&p, &all).unwrap(); attempt(|| parse_file(p.to_str().unwrap(), &mut j)).map_err(|e| format!("reading {e}"))? }
            2 => { attempt(|| { parse_text(&t1, &mut j); j.read(std::io::Cursor::new(t2.clone())) }).map_err(|e| format!("reading {e}")).and_then(|n2| eq("number returned by read", n2, xs.len()))? }
            _ => {
                let dir = scratch();
                std::fs::create_dir_all(dir.join("sub/more")).unwrap();
                std::env::set_current_dir(&dir).unwrap();
                let name = |f: &str| if relative { f.to_string() } else { dir.join(f).display().to_string() };
                std::fs::write(dir.join(&fname), &t2a).unwrap();
                let target = if nested { std::fs::write(dir.join("outer"), format!("include{gap}{}\n", name(&fname))).unwrap(); "outer" } else { fname.as_str() };
                let mut m = t1.clone(); if !m.is_empty() && !m.ends_with('\n') { m += "\n"; }
                m += &format!("\ninclude{gap}{}\n\n", name(target)); m += &t2b;
                attempt(|| parse_text(&m, &mut j)).map_err(|e| format!("reading {e}"))?
            }
        }
        chk_posts(&j, 0, &xs, EXPLICIT | ACCOUNT)?;
        for (k, x) in xs.iter().enumerate() {
            let g = &j.xacts[k];
            eq(&format!("date of transaction {k}"), g.date.map(|d| d.to_string()), Some(x.date.clone()))?;
            eq(&format!("auxiliary date of transaction {k}"), g.aux_date.map(|d| d.to_string()), x.aux.clone())?;
            eq(&format!("payee of transaction {k}"), g.payee.clone(), if x.payee.is_empty() { "Unknown Payee".into() } else { x.payee.clone() })?;
        }
        chk_notes(&j, 0, &xs)?;
        eq("all_posts", j.all_posts().len(), xs.iter().map(|x| x.posts.len()).sum::<usize>())?;
        let mut it = j.all_posts().into_iter();
        for x in &j.xacts { for p in &x.posts { if it.next().map(|q| q as *const Post) != Some(p as *const Post) { return Err("all_posts is not in order".into()); } } }
        Ok(())
    })
}
// ------------------------------------------------------------------ C15
/// every link by address
fn chk_links(j: &Journal) -> Res {
    let t = tree(j);
    let byptr: HashMap<usize, usize> = t.iter().enumerate().map(|(k, x)| (x.1 as *const Account as usize, k)).collect();
    let mut posts: Vec<Vec<usize>> = vec![vec![]; t.len()];
    for (k, x) in j.xacts.iter().enumerate() {
        for (n, p) in x.posts.iter().enumerate() {
            if p.xact_ptr != x as *const Xact { return Err(format!("transaction link of transaction {k} posting {n} does not lead to its transaction")); }
            if p.account.is_null() { continue; }
            let a = byptr.get(&(p.account as usize)).ok_or_else(|| format!("account link of transaction {k} posting {n} leads to no account of the journal"))?;
            posts[*a].push(p as *const Post as usize);
            #[cfg(ledger_verif)]
            for a in [p.amount, p.cost].iter().flatten() {
                let c = verif::commodity_ptr(a);
                if c.is_null() { continue; }
                if !verif::symbols(&j.commodity_pool).iter().any(|s| j.commodity_pool.find(s).unwrap() as *const Commodity == c) { return Err(format!("commodity link of transaction {k} posting {n} leads to no commodity of the pool")); }
            }
        }
    }
    for (k, (n, a)) in t.iter().enumerate() {
        let got: Vec<usize> = a.posts.iter().map(|p| *p as usize).collect();
        if got != posts[k] { return Err(format!("postings of account {n:?}: {} links, of which {} are the journal's postings made to it in order (expected {})", got.len(), got.iter().zip(&posts[k]).filter(|(a, b)| a == b).count(), posts[k].len())); }
        for c in a.accounts.values() { chk_parent(c, a)?; }
    }
    Ok(())
}
fn c15(r: &mut Rng, i: u64) -> Case {
    let stages = r.r(1, if i < 30 { 2 } else { 4 });
    let mut plan: Vec<(Vec<X>, String, usize)> = vec![];
    for _ in 0..stages {
        let n = match i { 0..=30 => r.r(1, 3), _ => *r.pick(&[1, 2, 3, 5, 9, 20]) };
        let mut s: Vec<&str> = SYMS.to_vec(); if r.p(1, 2) { s.extend(MORE); } r.shuffle(&mut s); let k = r.r(2, s.len()); s.truncate(k);
        let c = Cfg { maxposts: *r.pick(&[2, 4, 5, 9, 17]), wide: true, ..PLAIN };
        let xs: Vec<X> = (0..n).map(|_| xact(r, &c, &s)).collect();
        let t = journal_text(r, &xs);
        plan.push((xs, t, r.n(4)));
    }
    case(plan.iter().map(|p| format!("{}\n--- then add {} transaction(s) directly, register an account ---\n", p.1, p.2)).collect(), move || {
        let mut j = Journal::new();
        let mut xs: Vec<X> = vec![];
        let mut manual: Vec<usize> = vec![];
        for (k, (x, t, add)) in plan.iter().enumerate() {
            attempt(|| parse_text(t, &mut j)).map_err(|e| format!("reading {e}"))?;
            chk_links(&j).map_err(|e| format!("after part {k}: {e}"))?;
            xs.extend(x.iter().cloned());
            for n in 0..*add {
                let mut nx = Xact::new(None, "manual", None);
                let other = Box::new(Xact::new(None, "elsewhere", None));
                for m in 0..n + (k & 1) {
                    // the posting may come from another transaction
                    let mut p = Post::new(std::ptr::null(), std::ptr::null(), None, None, None);
                    match m % 3 { 1 => p.xact_ptr = &*other as *const Xact, 2 => p.xact_ptr = j.xacts.first().map(|x| x as *const Xact).unwrap_or(std::ptr::null()), _ => () }
                    let g = nx.add_post(p) as *const Post;
                    if g != nx.posts.last().unwrap() as *const Post { return Err("add_post does not return the added posting".into()); }
                    if nx.posts.len() != m + 1 { return Err("add_post does not add one posting".into()); }
                    for p in &nx.posts { if p.xact_ptr != &nx as *const Xact { return Err("transaction link of a posting does not lead to its transaction after add_post".into()); } }
                }
                manual.push(j.xacts.len());
                let a = j.add_xact(nx) as *const Xact;
                if a != j.xacts.last().unwrap() as *const Xact { return Err("add_xact does not return the added transaction".into()); }
                for (n, x) in j.xacts.iter().enumerate() { for p in &x.posts { if p.xact_ptr != x as *const Xact { return Err(format!("transaction link of a posting of transaction {n} does not lead to its transaction after add_xact")); } } }
                j.register_account(&format!("Extra:acc{k}_{n}"));
                j.commodity_pool.find_or_create(&format!("X{k}_{n}"), None);
            }
            chk_links(&j).map_err(|e| format!("after adding to part {k}: {e}"))?;
        }
        let names = acct_of(&j);
        let mut it = xs.iter();
        for (k, g) in j.xacts.iter().enumerate() {
            if manual.contains(&k) { continue; }
            let x = it.next().ok_or("more transactions than written")?; let e = expect(x).unwrap();
            eq("postings", g.posts.len(), e.len())?;
            for (p, w) in g.posts.iter().zip(&e) {
                eq("account of a posting", names.get(&(p.account as usize)), Some(&w.account))?;
                chk_v("amount".into(), p.amount.as_ref(), w.amount.as_ref(), true)?;
                if let Some(a) = &p.amount { if let Some(c) = a.get_commodity() { let f = j.commodity_pool.find(&c.symbol).map(|c| c as *const Commodity); if f != Some(c as *const Commodity) { return Err(format!("commodity link of an amount in {:?} does not lead to the pool's commodity", c.symbol)); } } }
            }
        }
        Ok(())
    })
}
