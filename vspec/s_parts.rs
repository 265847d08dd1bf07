// ---- amounts, lots and costs as written (C12)
#[verifier::external_body]
pub struct Error { x: u8 }
impl From<ParseError> for Error { #[verifier::external_body] fn from(e: ParseError) -> Error { unimplemented!() } }
impl From<DecError> for Error { #[verifier::external_body] fn from(e: DecError) -> Error { unimplemented!() } }
/// the commodity of a written symbol
pub open spec fn sym_ptr(pool: CommodityPool, s: Seq<char>) -> VPtr<Commodity> { if s.len() == 0 { nullp::<Commodity>() } else { ptr_of(pool, s) } }
pub open spec fn has_sym(pool: CommodityPool, s: Seq<char>) -> bool { s.len() == 0 || pool.commodities@.contains_key(s) }
/// nothing but the symbol s is new
pub open spec fn pool_sym(a: CommodityPool, b: CommodityPool, s: Seq<char>) -> bool {
    pool_wf(b) && pool_ext(a, b) && b.commodity_history.0.edges() == a.commodity_history.0.edges() && b.annotated_commodities@ == a.annotated_commodities@
    && (forall|t: Seq<char>| #[trigger] b.commodities@.contains_key(t) ==> a.commodities@.contains_key(t) || (t == s && s.len() > 0))
}
pub open spec fn lot_bad(date: Seq<char>, q: Seq<char>) -> bool { (q.len() > 0 && !dec_ok(q)) || (date.len() > 0 && !date_ok(date, "%Y-%m-%d"@)) }
/// the lot information as written
pub open spec fn lot_of(pool: CommodityPool, date: Seq<char>, q: Seq<char>, sym: Seq<char>, n: Annotation) -> bool {
    (n.price is Some <==> q.len() > 0) && (n.price is Some ==> has_sym(pool, sym) && av(n.price->0) == (dec_val(q), sym_ptr(pool, sym)))
    && n.date == (if date.len() > 0 { Some(date_val(date, "%Y-%m-%d"@)) } else { None })
}
