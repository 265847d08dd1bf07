// ---- glue for the reader
#[verifier::external_body]
pub struct VSource { x: u8 }
impl VSource { pub uninterp spec fn text(&self) -> Seq<char>; }
impl VReader {
    /// BufReader::new
    #[verifier::external_body]
    pub fn new(source: VSource) -> (r: VReader) ensures r.rest() == source.text() { unimplemented!() }
}
/// Cursor::new
#[verifier::external_body]
pub fn v_cursor(s: &str) -> (r: VSource) ensures r.text() == s@ { unimplemented!() }
#[verifier::external_body]
pub fn v_clear(s: &mut String) ensures final(s)@ == Seq::<char>::empty() { unimplemented!() }
/// completing a transaction which lies in the journal: the function reaches it by its address, and the journal's prices and commodities
#[verifier::external_body]
fn v_take_x(v: &mut Vec<Xact>, p: VPtr<Xact>) -> (r: (usize, Xact))
    requires distinct(old(v)@), there(old(v)@, p),
    ensures r.0 == at_addr(old(v)@, p), r.1 == old(v)@[r.0 as int], final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() && i != r.0 ==> #[trigger] final(v)@[i] == old(v)@[i], { unimplemented!() }
#[verifier::external_body]
fn v_put_x(v: &mut Vec<Xact>, k: usize, x: Xact)
    requires k < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(k as int, x), { unimplemented!() }
pub fn v_finalize(p: VPtr<Xact>, j: &mut Journal, Ghost(__cpc): Ghost<bool>)
    requires distinct(old(j).xacts@), there(old(j).xacts@, p), pool_wf(old(j).commodity_pool), ({ let x = old(j).xacts@[at_addr(old(j).xacts@, p)]; posts_ok(old(j).commodity_pool, x.posts@) && ((fin_open(x.posts@) || fin_refused(x.posts@, x.date is Some)) ==> __cpc) }),
    ensures final(j).master == old(j).master, pool_wf(final(j).commodity_pool), same_but_prices(old(j).commodity_pool, final(j).commodity_pool),
        ({ let k = at_addr(old(j).xacts@, p); let x = old(j).xacts@[k]; let y = final(j).xacts@[k]; only_at(old(j).xacts@, final(j).xacts@, k) && fin_frame(x, y) && posts_ok(final(j).commodity_pool, y.posts@) && (!fin_open(x.posts@) ==> fin_done(x.posts@, y.posts@)) }),
{
    proof { assert(is_at(j.xacts@, p, at_addr(j.xacts@, p))); }
    let (k, x0) = v_take_x(&mut j.xacts, p);
    let mut x = x0;
    finalize(&mut x, j, Ghost(__cpc));
    proof { reveal(posts_fine); }
    v_put_x(&mut j.xacts, k, x);
}
/// a price line must start with a character of one byte
#[verifier::external_body]
fn v_one_byte(s: &str) -> (r: bool) requires s@.len() > 0 ensures r == (clen(s@[0]) == 1) { unimplemented!() }
pub fn v_price_line(j: &mut Journal, s: &str, Ghost(__cpc): Ghost<bool>)
    requires pool_wf(old(j).commodity_pool), s@.len() > 0, (!price_line_ok(s@) || clen(s@[0]) != 1) ==> __cpc,
    ensures price_line_ok(s@), final(j).master == old(j).master, final(j).xacts == old(j).xacts, pool_wf(final(j).commodity_pool), pool_ext(old(j).commodity_pool, final(j).commodity_pool),
{
    if !v_one_byte(s) { vabort(Ghost(__cpc)); }
    j.commodity_pool.parse_price_directive(s, Ghost(__cpc));
}
// ---- files
pub uninterp spec fn file_ok(path: Seq<char>) -> bool;
pub uninterp spec fn file_text(path: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn v_open(path: &str) -> (r: Result<VSource, VIoError>) ensures r is Ok <==> file_ok(path@), r is Ok ==> r->Ok_0.text() == file_text(path@) { unimplemented!() }
#[verifier::external_body]
pub struct PathBuf { x: u8 }
pub uninterp spec fn cwd() -> Seq<char>;
pub uninterp spec fn cwd_ok() -> bool;
pub uninterp spec fn join(a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub uninterp spec fn parent(a: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn path_exists(a: Seq<char>) -> bool;
pub uninterp spec fn path_is_file(a: Seq<char>) -> bool;
pub uninterp spec fn path_pred(f: int, p: Seq<char>) -> bool;
pub uninterp spec fn path_part(f: int, p: Seq<char>) -> Seq<char>;
pub uninterp spec fn path_rel(f: int, p: Seq<char>, q: Seq<char>) -> bool;
#[verifier::external_body]
pub struct VOsStr { x: u8 }
impl VOsStr {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some, r->0@ == self@ { unimplemented!() }
}
impl VAsStr for VOsStr { #[verifier::external_body] fn v_s(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
impl PathBuf {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Result<PathBuf, VIoError>) ensures r is Ok, r->Ok_0@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, s: &str) ensures final(self)@ == join(old(self)@, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&PathBuf>) ensures (match r { Some(p) => Some(p@), None => None }) == parent(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool) ensures r == path_exists(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r == path_is_file(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == path_pred(0, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_absolute(&self) -> (r: bool) ensures r == path_pred(1, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_relative(&self) -> (r: bool) ensures r == !path_pred(1, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn has_root(&self) -> (r: bool) ensures r == path_pred(2, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: PathBuf) ensures r@ == join(self@, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&VOsStr>) ensures r is Some <==> path_pred(3, self@), r is Some ==> r->0@ == path_part(0, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&VOsStr>) ensures r is Some <==> path_pred(4, self@), r is Some ==> r->0@ == path_part(1, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_stem(&self) -> (r: Option<&VOsStr>) ensures r is Some <==> path_pred(5, self@), r is Some ==> r->0@ == path_part(2, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with(&self, s: &str) -> (r: bool) ensures r == path_rel(0, self@, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn ends_with(&self, s: &str) -> (r: bool) ensures r == path_rel(1, self@, s@) { unimplemented!() }
    /// file names are text
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some, r->0@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn v_current_dir() -> (r: Result<PathBuf, VIoError>) ensures r is Ok <==> cwd_ok(), r is Ok ==> r->Ok_0@ == cwd() { unimplemented!() }
/// the file an include line names
pub open spec fn inc_abs(name: Seq<char>) -> bool { name.len() > 0 && (name[0] == '/' || name[0] == '\\' || name[0] == '~') }
pub open spec fn inc_path(name: Seq<char>) -> Seq<char> { if inc_abs(name) { name } else { join(cwd(), name) } }
pub open spec fn inc_found(name: Seq<char>) -> bool { path_exists(parent(inc_path(name))->0) && path_is_file(inc_path(name)) }
pub mod ax_inc { use super::*;
/// what a text includes is in finitely many files: no file includes itself
pub broadcast axiom fn inc_is(name: Seq<char>)
    ensures #![trigger inc_items(name)] #![trigger inc_bad(name)] inc_items(name) == (if inc_found(name) { items(file_text(inc_path(name))) } else { Seq::<XW>::empty() }),
        inc_bad(name) == ((!inc_abs(name) && !cwd_ok()) || parent(inc_path(name)) is None || (inc_found(name) && (!file_ok(inc_path(name)) || items_bad(file_text(inc_path(name))))));
}
