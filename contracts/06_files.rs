verus! {

// ---- files and opening databases (assumed) ----------------------------------------------------
/// The map stored in a file when the program starts, and whether there is such a file.
pub uninterp spec fn file_map(path: Seq<char>) -> Map<i64, Bytes>;
pub uninterp spec fn is_file_at(path: Seq<char>) -> bool;
pub uninterp spec fn joined(dir: Seq<char>, name: Seq<char>) -> Seq<char>;
/// Where the map of a world directory or map file is.
pub open spec fn map_file(path: Seq<char>) -> Seq<char> { if is_file_at(path) { path } else { joined(path, "map.sqlite"@) } }
pub open spec fn world(path: Seq<char>) -> Map<i64, Bytes> { file_map(map_file(path)) }
/// The columns of a file's table of blocks (none: no such table, or no database).
pub uninterp spec fn file_table(path: Seq<char>) -> Seq<FieldV>;
/// The path names a map: its file, or its world directory.
pub open spec fn names_file(path: Seq<char>) -> bool { is_file_at(map_file(path)) }
pub open spec fn is_map(path: Seq<char>) -> bool { names_file(path) && is_map_table(file_table(map_file(path))) }
impl<'a> VShow for &'a String { open spec fn show(self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub struct PathBuf { p: u8 }
impl PathBuf {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn from<S: VShow>(s: S) -> (r: Self) ensures r@ == s.show() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r == is_file_at(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, n: &str) -> (r: Self) ensures r@ == joined(self@, n@) { unimplemented!() }
}
pub struct OpenFlags { pub ro: bool, pub rw: bool }
impl OpenFlags {
    pub fn new() -> (r: Self) ensures !r.ro, !r.rw { OpenFlags { ro: false, rw: false } }
    pub fn set_read_only(self) -> (r: Self) ensures r.ro { OpenFlags { ro: true, ..self } }
    pub fn set_read_write(self) -> (r: Self) ensures r.rw, r.ro == self.ro { OpenFlags { rw: true, ..self } }
}
/// A connection just opened on a file.
pub open spec fn fresh(c: ConnV, path: Seq<char>, ro: bool) -> bool {
    c.disk == file_map(path) && c.work == c.disk && !c.in_tx && c.commits == 0 && c.ro == ro && c.table == file_table(path)
}
impl Connection {
    #[verifier::external_body]
    pub fn open_with_flags(p: PathBuf, f: OpenFlags) -> (r: Result<Connection, SqliteError>)
        ensures r matches Ok(c) ==> fresh(c@, p@, f.ro),
            // a file that is there can be opened
            is_file_at(p@) && (f.ro || f.rw) ==> r.is_ok()
    { unimplemented!() }
}

}
