verus! {

// ---- the sqlite crate (assumed contracts) ----------------------------------------------
// A connection holds the committed blocks (disk) and the blocks this connection sees (work).
pub struct ConnV { pub disk: Map<i64, Bytes>, pub work: Map<i64, Bytes>, pub in_tx: bool, pub commits: nat, pub ro: bool, pub table: Seq<FieldV> }
/// A column of the table of blocks: name, declared type, place in the primary key.
pub struct FieldV { pub name: Seq<char>, pub ty: Seq<char>, pub key: i64 }
/// The table holds blocks under their position.  (No table, or no database: no columns.)
pub open spec fn is_map_table(t: Seq<FieldV>) -> bool {
    t.len() >= 2 && t[0] == (FieldV { name: "pos"@, ty: "INT"@, key: 1 }) && t[1] == (FieldV { name: "data"@, ty: "BLOB"@, key: 0 })
}
#[derive(Debug)]
pub struct SqliteError { pub e: u8 }
#[derive(PartialEq, Eq, Clone, Copy, vstd::prelude::Structural)]
pub enum State { Row, Done }
pub enum ColV { I(i64), B(Bytes), T(Seq<char>), Null }
pub enum SqlOp { Get, Set, Del, All, Info, Other }
pub enum StepV { Fresh, Row, Done }
pub struct StmtV { pub op: SqlOp, pub p: Map<int, ColV>, pub at: StepV, pub cols: Seq<ColV>, pub rows: Seq<(i64, Bytes)>, pub fields: Seq<FieldV>, pub next: int }

#[verifier::external_body]
pub struct Connection { c: u8 }
#[verifier::external_body]
pub struct Statement { s: u8 }

pub open spec fn tx_ok(c: ConnV) -> bool { !c.in_tx ==> c.disk == c.work }
/// What SELECT pos, data lists: every block of the table once.
pub open spec fn rows_ok(rows: Seq<(i64, Bytes)>, m: Map<i64, Bytes>) -> bool {
    (forall|i: int| 0 <= i < rows.len() ==> m.dom().contains((#[trigger] rows[i]).0) && rows[i].1 == m[rows[i].0])
        && (forall|i: int, j: int| 0 <= i < j < rows.len() ==> (#[trigger] rows[i]).0 != (#[trigger] rows[j]).0)
        && (forall|k: i64| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < rows.len() && (#[trigger] rows[i]).0 == k)
}
impl Connection {
    pub uninterp spec fn view(&self) -> ConnV;
    #[verifier::external_body]
    pub fn execute(&mut self, sql: &str) -> (r: Result<(), SqliteError>)
        ensures
            sql@ == "BEGIN"@ ==> (!old(self)@.in_tx ==> r.is_ok() && final(self)@ == (ConnV { in_tx: true, ..old(self)@ }))
                && (old(self)@.in_tx ==> r.is_err() && final(self)@ == old(self)@),
            // COMMIT is the one operation that may fail on a healthy database (busy, disk full)
            sql@ == "COMMIT"@ ==> (r.is_ok() ==> old(self)@.in_tx && final(self)@ == (ConnV { disk: old(self)@.work, in_tx: false, commits: old(self)@.commits + 1, ..old(self)@ }))
                && (r.is_err() ==> final(self)@ == old(self)@),
            sql@ == "VACUUM"@ ==> final(self)@ == old(self)@ && (r.is_ok() ==> !old(self)@.in_tx),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn prepare(&self, sql: &str) -> (r: Result<Statement, SqliteError>)
        ensures
            is_map_table(self@.table) ==> r.is_ok(),
            r matches Ok(s) ==> (sql@ == "PRAGMA table_info(blocks)"@ ==> s@.op == SqlOp::Info && s@.fields == self@.table),
            r matches Ok(s) ==> s@.at == StepV::Fresh && s@.p == Map::<int, ColV>::empty() && s@.next == 0,
            r matches Ok(s) ==> (sql@ == "SELECT data FROM blocks WHERE pos = ?"@ ==> s@.op == SqlOp::Get)
                && (sql@ == "INSERT OR REPLACE INTO blocks (pos, data) VALUES (?, ?)"@ ==> s@.op == SqlOp::Set)
                && (sql@ == "DELETE FROM blocks WHERE pos = ?"@ ==> s@.op == SqlOp::Del)
                && (sql@ == "SELECT pos, data FROM blocks"@ ==> s@.op == SqlOp::All && rows_ok(s@.rows, self@.work)),
    { unimplemented!() }
}
pub trait VBind: Sized {
    spec fn colv(self) -> ColV;
}
impl VBind for i64 { open spec fn colv(self) -> ColV { ColV::I(self) } }
impl<'a> VBind for &'a [u8] { open spec fn colv(self) -> ColV { ColV::B(self@) } }
pub trait VRead: Sized {
    spec fn is_col(self, c: ColV) -> bool;
    /// Reading it where there is no value is an error.
    spec fn needs_value() -> bool;
}
impl VRead for i64 { open spec fn is_col(self, c: ColV) -> bool { c == ColV::I(self) } open spec fn needs_value() -> bool { false } }
impl VRead for Vec<u8> { open spec fn is_col(self, c: ColV) -> bool { c == ColV::B(self@) } open spec fn needs_value() -> bool { false } }
impl VRead for String { open spec fn is_col(self, c: ColV) -> bool { c == ColV::T(self@) } open spec fn needs_value() -> bool { true } }
/// Changing the table outside a transaction commits at once.
pub open spec fn write(c: ConnV, w: Map<i64, Bytes>) -> ConnV {
    if c.in_tx { ConnV { work: w, ..c } } else { ConnV { work: w, disk: w, commits: c.commits + 1, ..c } }
}
impl Statement {
    pub uninterp spec fn view(&self) -> StmtV;
    /// Binding needs a statement that was reset (or never stepped).
    #[verifier::external_body]
    pub fn bind<T: VBind>(&mut self, i: usize, v: T) -> (r: Result<(), SqliteError>)
        ensures
            old(self)@.at == StepV::Fresh ==> r.is_ok() && final(self)@ == (StmtV { p: old(self)@.p.insert(i as int, v.colv()), ..old(self)@ }),
            old(self)@.at != StepV::Fresh ==> r.is_err() && final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) -> (r: Result<(), SqliteError>)
        ensures r.is_ok(), final(self)@ == (StmtV { at: StepV::Fresh, next: 0, ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read<T: VRead>(&self, i: usize) -> (r: Result<T, SqliteError>)
        ensures self@.at == StepV::Row && i < self@.cols.len() ==> r.is_ok(),
            r matches Ok(v) ==> self@.at == StepV::Row && i < self@.cols.len() ==> v.is_col(self@.cols[i as int]),
            self@.at != StepV::Row && T::needs_value() ==> r.is_err(),
    { unimplemented!() }
    /// next() of the table's description (PRAGMA table_info): one row per column,
    /// (number, name, type, not null, default, place in the key).
    #[verifier::external_body]
    pub fn step_info(&mut self) -> (r: Result<State, SqliteError>)
        ensures
            old(self)@.op == SqlOp::Info ==> final(self)@.op == SqlOp::Info && final(self)@.fields == old(self)@.fields,
            old(self)@.op == SqlOp::Info && is_map_table(old(self)@.fields) ==> r.is_ok(),
            old(self)@.op == SqlOp::Info && r.is_ok() && 0 <= old(self)@.next < old(self)@.fields.len() && old(self)@.at != StepV::Done ==> {
                let f = old(self)@.fields[old(self)@.next];
                let c = final(self)@.cols;
                r == Ok::<State, SqliteError>(State::Row) && final(self)@.at == StepV::Row && final(self)@.next == old(self)@.next + 1
                    && c.len() == 6 && c[0] == ColV::I(old(self)@.next as i64) && c[1] == ColV::T(f.name) && c[2] == ColV::T(f.ty) && c[5] == ColV::I(f.key)
            },
            old(self)@.op == SqlOp::Info && r.is_ok() && old(self)@.next == old(self)@.fields.len() && old(self)@.at != StepV::Done ==>
                r == Ok::<State, SqliteError>(State::Done) && final(self)@.at == StepV::Done && final(self)@.next == old(self)@.next,
    { unimplemented!() }
    /// sqlite's next(), with the connection it works on made explicit.
    #[verifier::external_body]
    pub fn step(&mut self, c: &mut Connection) -> (r: Result<State, SqliteError>)
        ensures
            final(self)@.op == old(self)@.op, final(self)@.p == old(self)@.p,
            old(self)@.op == SqlOp::Get && old(self)@.at == StepV::Fresh ==> final(c)@ == old(c)@ && (old(self)@.p[1] matches ColV::I(k) ==>
                match r {
                    Ok(State::Row) => old(c)@.work.dom().contains(k) && final(self)@.at == StepV::Row && final(self)@.cols == seq![ColV::B(old(c)@.work[k])],
                    Ok(State::Done) => !old(c)@.work.dom().contains(k) && final(self)@.at == StepV::Done,
                    Err(_) => false,
                }),
            old(self)@.op == SqlOp::Set && old(self)@.at == StepV::Fresh ==> (old(self)@.p[1] matches ColV::I(k) ==> old(self)@.p[2] matches ColV::B(b) ==>
                r == Ok::<State, SqliteError>(State::Done) && final(self)@.at == StepV::Done && final(c)@ == write(old(c)@, old(c)@.work.insert(k, b))),
            old(self)@.op == SqlOp::Del && old(self)@.at == StepV::Fresh ==> (old(self)@.p[1] matches ColV::I(k) ==>
                r == Ok::<State, SqliteError>(State::Done) && final(self)@.at == StepV::Done && final(c)@ == write(old(c)@, old(c)@.work.remove(k))),
    { unimplemented!() }
    /// next() of the listing: the rows were fixed when it was prepared (nothing writes meanwhile:
    /// the listing borrows the database).
    #[verifier::external_body]
    pub fn step_all(&mut self) -> (r: Result<State, SqliteError>)
        ensures
            old(self)@.op == SqlOp::All ==> final(self)@.op == SqlOp::All && final(self)@.rows == old(self)@.rows,
            old(self)@.op == SqlOp::All && 0 <= old(self)@.next < old(self)@.rows.len() ==>
                r == Ok::<State, SqliteError>(State::Row) && final(self)@.at == StepV::Row && final(self)@.next == old(self)@.next + 1
                    && final(self)@.cols == seq![ColV::I(old(self)@.rows[old(self)@.next].0), ColV::B(old(self)@.rows[old(self)@.next].1)],
            old(self)@.op == SqlOp::All && old(self)@.next == old(self)@.rows.len() ==>
                r == Ok::<State, SqliteError>(State::Done) && final(self)@.at == StepV::Done && final(self)@.next == old(self)@.next,
    { unimplemented!() }
}

}
