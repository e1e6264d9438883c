use core::marker::PhantomData;
verus! {

// ---- the command-line library (assumed contracts on clap) -------------------------------------
/// What is declared of one argument.
pub struct ArgRec {
    pub name: Seq<char>, pub long: Option<Seq<char>>, pub short: Option<Seq<char>>, pub required: bool, pub takes: bool,
    pub hyphen: bool, pub num: Option<int>, pub min: Option<int>, pub requires: Set<Seq<char>>, pub global: bool,
}
pub open spec fn new_arg(n: Seq<char>) -> ArgRec {
    ArgRec { name: n, long: None, short: None, required: false, takes: false, hyphen: false, num: None, min: None, requires: Set::empty(), global: false }
}
/// An argument without a flag is given by its place, so it has a value.
pub open spec fn settled(a: ArgRec) -> ArgRec { ArgRec { takes: a.takes || (a.long.is_none() && a.short.is_none()), ..a } }
#[verifier::external_body]
pub struct Arg<'a, 'b> { p: PhantomData<(&'a u8, &'b u8)> }
impl<'a, 'b> Arg<'a, 'b> {
    pub uninterp spec fn view(&self) -> ArgRec;
    #[verifier::external_body]
    pub fn with_name(n: &'a str) -> (r: Arg<'a, 'b>) ensures r@ == new_arg(n@) { unimplemented!() }
    #[verifier::external_body]
    pub fn long(self, l: &'b str) -> (r: Self) ensures r@ == (ArgRec { long: Some(l@), ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn short(self, l: &'b str) -> (r: Self) ensures r@ == (ArgRec { short: Some(l@), ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn help(self, l: &'b str) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn required(self, b: bool) -> (r: Self) ensures r@ == (ArgRec { required: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn global(self, b: bool) -> (r: Self) ensures r@ == (ArgRec { global: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn requires(self, n: &'a str) -> (r: Self) ensures r@ == (ArgRec { requires: self@.requires.insert(n@), ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn takes_value(self, b: bool) -> (r: Self) ensures r@ == (ArgRec { takes: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn allow_hyphen_values(self, b: bool) -> (r: Self) ensures r@ == (ArgRec { hyphen: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn number_of_values(self, n: u64) -> (r: Self) ensures r@ == (ArgRec { takes: true, num: Some(n as int), ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn min_values(self, n: u64) -> (r: Self) ensures r@ == (ArgRec { takes: true, min: Some(n as int), ..self@ }) { unimplemented!() }
    /// More than one name also sets the number of values.
    #[verifier::external_body]
    pub fn value_names<const N: usize>(self, n: &[&'b str; N]) -> (r: Self)
        ensures r@ == (ArgRec { takes: true, num: if N > 1 { Some(N as int) } else { self@.num }, ..self@ })
    { unimplemented!() }
}
/// A program or subcommand.
pub struct AppV { pub name: Seq<char>, pub recs: Seq<ArgRec>, pub subs: Seq<(Seq<char>, Seq<ArgRec>)>, pub sub_required: bool }
pub open spec fn new_app(n: Seq<char>) -> AppV { AppV { name: n, recs: Seq::empty(), subs: Seq::empty(), sub_required: false } }
pub open spec fn settled_all(s: Seq<Arg>) -> Seq<ArgRec> { Seq::new(s.len(), |i: int| settled(s[i]@)) }
pub enum AppSettings { SubcommandRequired }
#[verifier::external_body]
pub struct App<'a, 'b> { p: PhantomData<(&'a u8, &'b u8)> }
impl<'a, 'b> App<'a, 'b> {
    pub uninterp spec fn view(&self) -> AppV;
    #[verifier::external_body]
    pub fn new(n: &'b str) -> (r: Self) ensures r@ == new_app(n@) { unimplemented!() }
    #[verifier::external_body]
    pub fn about(self, l: &'b str) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn after_help(self, l: &'b str) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn version(self, l: &'b str) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn author(self, l: &'b str) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn arg(self, a: Arg<'a, 'b>) -> (r: Self) ensures r@ == (AppV { recs: self@.recs.push(settled(a@)), ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn args(self, a: &Vec<Arg<'a, 'b>>) -> (r: Self) ensures r@ == (AppV { recs: self@.recs + settled_all(a@), ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn setting(self, s: AppSettings) -> (r: Self) ensures r@ == (AppV { sub_required: true, ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn subcommands(self, v: Vec<App<'a, 'b>>) -> (r: Self)
        ensures r@ == (AppV { subs: self@.subs + Seq::new(v@.len(), |i: int| (v@[i]@.name, v@[i]@.recs)), ..self@ })
    { unimplemented!() }
    /// Returns only if the command line fits what was declared; otherwise the program ends there.
    #[verifier::external_body]
    pub fn get_matches(self) -> (r: ArgMatches) ensures r@ == typed(self@), fits(self@, r@) { unimplemented!() }
}
pub struct SubCommand { p: u8 }
impl SubCommand {
    #[verifier::external_body]
    pub fn with_name<'a, 'b>(n: &'b str) -> (r: App<'a, 'b>) ensures r@ == new_app(n@) { unimplemented!() }
}
/// Declared arguments found on the command line, with their values.
pub type Given = Map<Seq<char>, Seq<Seq<char>>>;
pub struct MatchV { pub given: Given, pub sub: Option<(Seq<char>, Given)> }
/// The command line as a program with these declarations reads it.
pub uninterp spec fn typed(a: AppV) -> MatchV;
pub open spec fn rec_fits(a: ArgRec, g: Given) -> bool {
    &&& a.required ==> g.contains_key(a.name)
    &&& g.contains_key(a.name) ==> {
        &&& !a.takes ==> g[a.name].len() == 0
        &&& a.takes ==> (match a.num { Some(n) => g[a.name].len() == n, None => match a.min { Some(n) => g[a.name].len() >= n, None => g[a.name].len() == 1 } })
        &&& forall|q: Seq<char>| #[trigger] a.requires.contains(q) ==> g.contains_key(q)
    }
}
pub open spec fn recs_fit(s: Seq<ArgRec>, g: Given) -> bool { forall|i: int| 0 <= i < s.len() ==> rec_fits(#[trigger] s[i], g) }
pub open spec fn fits(a: AppV, m: MatchV) -> bool {
    &&& recs_fit(a.recs, m.given)
    &&& a.sub_required ==> m.sub.is_some()
    &&& m.sub matches Some(s) ==> exists|k: int| 0 <= k < a.subs.len() && (#[trigger] a.subs[k]).0 == s.0 && recs_fit(a.subs[k].1, s.1)
}
pub open spec fn first_of(g: Given, n: Seq<char>) -> Option<Seq<char>> { if g.contains_key(n) && g[n].len() > 0 { Some(g[n][0]) } else { None } }
pub open spec fn view_str(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
#[verifier::external_body]
pub struct ArgMatches { p: u8 }
impl ArgMatches {
    pub uninterp spec fn view(&self) -> MatchV;
    #[verifier::external_body]
    pub fn is_present(&self, n: &str) -> (r: bool) ensures r == self@.given.contains_key(n@) { unimplemented!() }
    #[verifier::external_body]
    pub fn value_of(&self, n: &str) -> (r: Option<&str>) ensures view_str(r) == first_of(self@.given, n@) { unimplemented!() }
    #[verifier::external_body]
    pub fn values_of(&self, n: &str) -> (r: Option<Values<'_>>)
        ensures match r { Some(v) => self@.given.contains_key(n@) && v@ == self@.given[n@], None => !self@.given.contains_key(n@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn subcommand_name(&self) -> (r: Option<&str>)
        ensures match r { Some(n) => self@.sub.is_some() && n@ == self@.sub.unwrap().0, None => self@.sub.is_none() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn subcommand_matches(&self, n: &String) -> (r: Option<&ArgMatches>)
        ensures match r {
            Some(m) => self@.sub.is_some() && n@ == self@.sub.unwrap().0 && m@.given == self@.sub.unwrap().1,
            None => self@.sub.is_none() || n@ != self@.sub.unwrap().0,
        }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Values<'a> { p: PhantomData<&'a u8> }
pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn strings(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
impl<'a> Values<'a> {
    pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<&'a str>) ensures strs(r@) == self@ { unimplemented!() }
    /// .map(str::to_string).collect()
    #[verifier::external_body]
    pub fn v_owned(self) -> (r: Vec<String>) ensures strings(r@) == self@ { unimplemented!() }
}
/// .iter_mut().flatten().map(str::to_string).collect()
pub fn v_owned_all(o: Option<Values>) -> (r: Vec<String>)
    ensures strings(r@) =~= (match o { Some(v) => v@, None => Seq::empty() })
{ match o { Some(v) => v.v_owned(), None => Vec::new() } }

// ---- numbers written in decimal (assumed contract on str::parse) --------------------------------
pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_num(#[trigger] s[i]) }
pub open spec fn decimal(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { decimal(s.drop_last()) * 10 + (s.last() as int - '0' as int) }
}
pub open spec fn unsigned_num(s: Seq<char>) -> Option<int> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if digits(d) { Some(decimal(d)) } else { None }
}
pub open spec fn signed_num(s: Seq<char>) -> Option<int> {
    if s.len() > 0 && s[0] == '-' { if digits(s.skip(1)) { Some(-decimal(s.skip(1))) } else { None } } else { unsigned_num(s) }
}
pub trait VNum: Sized { spec fn reads(s: Seq<char>) -> Option<Self>; }
#[verifier::opaque]
pub open spec fn i32_of(s: Seq<char>) -> Option<i32> { match signed_num(s) { Some(n) => if i32::MIN <= n <= i32::MAX { Some(n as i32) } else { None }, None => None } }
#[verifier::opaque]
pub open spec fn u8_of(s: Seq<char>) -> Option<u8> { match unsigned_num(s) { Some(n) => if n <= 255 { Some(n as u8) } else { None }, None => None } }
#[verifier::opaque]
pub open spec fn i8_of(s: Seq<char>) -> Option<i8> { match signed_num(s) { Some(n) => if i8::MIN <= n <= i8::MAX { Some(n as i8) } else { None }, None => None } }
impl VNum for i8 { open spec fn reads(s: Seq<char>) -> Option<i8> { i8_of(s) } }
#[verifier::opaque]
pub open spec fn i16_of(s: Seq<char>) -> Option<i16> { match signed_num(s) { Some(n) => if i16::MIN <= n <= i16::MAX { Some(n as i16) } else { None }, None => None } }
impl VNum for i16 { open spec fn reads(s: Seq<char>) -> Option<i16> { i16_of(s) } }
#[verifier::opaque]
pub open spec fn i64_of(s: Seq<char>) -> Option<i64> { match signed_num(s) { Some(n) => if i64::MIN <= n <= i64::MAX { Some(n as i64) } else { None }, None => None } }
impl VNum for i64 { open spec fn reads(s: Seq<char>) -> Option<i64> { i64_of(s) } }
#[verifier::opaque]
pub open spec fn u16_of(s: Seq<char>) -> Option<u16> { match unsigned_num(s) { Some(n) => if u16::MIN <= n <= u16::MAX { Some(n as u16) } else { None }, None => None } }
impl VNum for u16 { open spec fn reads(s: Seq<char>) -> Option<u16> { u16_of(s) } }
#[verifier::opaque]
pub open spec fn u32_of(s: Seq<char>) -> Option<u32> { match unsigned_num(s) { Some(n) => if u32::MIN <= n <= u32::MAX { Some(n as u32) } else { None }, None => None } }
impl VNum for u32 { open spec fn reads(s: Seq<char>) -> Option<u32> { u32_of(s) } }
#[verifier::opaque]
pub open spec fn u64_of(s: Seq<char>) -> Option<u64> { match unsigned_num(s) { Some(n) => if u64::MIN <= n <= u64::MAX { Some(n as u64) } else { None }, None => None } }
impl VNum for u64 { open spec fn reads(s: Seq<char>) -> Option<u64> { u64_of(s) } }
#[verifier::opaque]
pub open spec fn usize_of(s: Seq<char>) -> Option<usize> { match unsigned_num(s) { Some(n) => if usize::MIN <= n <= usize::MAX { Some(n as usize) } else { None }, None => None } }
impl VNum for usize { open spec fn reads(s: Seq<char>) -> Option<usize> { usize_of(s) } }
impl VNum for i32 { open spec fn reads(s: Seq<char>) -> Option<i32> { i32_of(s) } }
impl VNum for u8 { open spec fn reads(s: Seq<char>) -> Option<u8> { u8_of(s) } }
#[derive(Debug)]
pub struct NumError { pub e: u8 }
impl vstd::std_specs::convert::FromSpecImpl<NumError> for AnyError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: NumError) -> AnyError { arbitrary() }
}
impl From<NumError> for AnyError { #[verifier::external_body] fn from(e: NumError) -> (r: AnyError) { unimplemented!() } }
pub trait VParse {
    spec fn pt(&self) -> Seq<char>;
    fn v_parse<T: VNum>(&self) -> (r: Result<T, NumError>) ensures match r { Ok(n) => T::reads(self.pt()) == Some(n), Err(_) => T::reads(self.pt()).is_none() };
}
impl VParse for str {
    open spec fn pt(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_parse<T: VNum>(&self) -> (r: Result<T, NumError>) { unimplemented!() }
}

}
