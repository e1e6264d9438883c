module map_database map_database.rs
enum DBError derive=debug
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys, crate::console_base::group_str_ref};
impl vstd::std_specs::convert::FromSpecImpl<SqliteError> for DBError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: SqliteError) -> DBError { DBError::DatabaseError }
}
>>>
fn DBError::from@From<sqlite::Error> keep_trait
struct MapDatabaseRows own
struct MapDatabase own
raw <<<
impl VShow for DBError { uninterp spec fn show(self) -> Seq<char>; }
impl MapDatabaseRows {
    /// All rows / how many of them were yielded.
    pub open spec fn rows(self) -> Seq<(i64, Bytes)> { self.stmt_get@.rows }
    pub open spec fn pos(self) -> int { self.stmt_get@.next }
    pub open spec fn wf(self) -> bool { self.stmt_get@.op == SqlOp::All && 0 <= self.pos() <= self.rows().len() }
}
impl MapDatabase {
    /// The blocks this run sees, and those that are permanent.
    pub open spec fn view(&self) -> Map<i64, Bytes> { self.conn@.work }
    pub open spec fn disk(&self) -> Map<i64, Bytes> { self.conn@.disk }
    pub open spec fn commits(&self) -> nat { self.conn@.commits }
    pub open spec fn wf(&self) -> bool {
        self.in_transaction == self.conn@.in_tx && tx_ok(self.conn@) && is_map_table(self.conn@.table)
            && self.stmt_get@.op == SqlOp::Get && self.stmt_set@.op == SqlOp::Set && self.stmt_del@.op == SqlOp::Del
            && self.stmt_get@.at == StepV::Fresh && self.stmt_set@.at == StepV::Fresh && self.stmt_del@.at == StepV::Fresh
    }
    /// Nothing became permanent.
    pub open spec fn held(&self, o: &MapDatabase) -> bool { self.disk() == o.disk() && self.commits() == o.commits() && self.conn@.ro == o.conn@.ro }
}
>>>
fn verify_database own
subst <<<
stmt.next() ==> stmt.step_info()
>>>
spec <<<
    ensures r.is_ok() == is_map_table(conn@.table)
>>>
fn MapDatabase::new own args=mut~conn:~Connection
subst <<<
verify_database(conn) ==> verify_database(&conn)
>>>
spec <<<
    requires !conn@.in_tx, tx_ok(conn@)
    ensures r.is_ok() == is_map_table(conn@.table), r matches Ok(db) ==> db.wf() && db@ == conn@.work && db.disk() == conn@.disk && db.commits() == conn@.commits && db.conn@.ro == conn@.ro && db.in_transaction
>>>
fn MapDatabase::is_in_transaction own
spec <<<
    ensures r == self.in_transaction
>>>
fn MapDatabase::begin_if_needed own
spec <<<
    requires old(self).wf()
    ensures r.is_ok(), final(self).wf(), final(self).in_transaction, final(self)@ == old(self)@, final(self).held(old(self))
>>>
fn MapDatabase::commit_if_needed own
spec <<<
    requires old(self).wf()
    ensures
        final(self).wf(), final(self)@ == old(self)@, final(self).conn@.ro == old(self).conn@.ro,
        r.is_ok() ==> final(self).disk() == final(self)@ && !final(self).in_transaction
            && final(self).commits() == old(self).commits() + (if old(self).in_transaction { 1int } else { 0 }),
        r.is_err() ==> final(self).held(old(self)) && final(self).in_transaction,
>>>
fn MapDatabase::iter_rows own
spec <<<
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ == old(self)@, final(self).held(old(self)), final(self).in_transaction,
        r.wf(), r.pos() == 0, rows_ok(r.rows(), old(self)@)
>>>
fn MapDatabaseRows::next@Iterator own
subst <<<
self.stmt_get.next() ==> self.stmt_get.step_all()
>>>
spec <<<
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).rows() == old(self).rows(),
        match r {
            Some(kv) => old(self).pos() < old(self).rows().len() && final(self).pos() == old(self).pos() + 1
                && kv.0 == old(self).rows()[old(self).pos()].0 && kv.1@ == old(self).rows()[old(self).pos()].1,
            None => old(self).pos() == old(self).rows().len() && final(self).pos() == old(self).pos(),
        }
>>>
fn MapDatabase::get_block own
subst <<<
self.stmt_get.next() ==> self.stmt_get.step(&mut self.conn)
>>>
spec <<<
    requires old(self).wf()
    ensures
        final(self).wf(), final(self)@ == old(self)@, final(self).held(old(self)), final(self).in_transaction,
        match r {
            Ok(d) => old(self)@.dom().contains(map_key) && d@ == old(self)@[map_key],
            Err(_) => !old(self)@.dom().contains(map_key),
        }
>>>
fn MapDatabase::set_block own
subst <<<
self.stmt_set.next() ==> self.stmt_set.step(&mut self.conn)
>>>
spec <<<
    requires old(self).wf()
    ensures final(self).wf(), r.is_ok(), final(self)@ == old(self)@.insert(map_key, data@), final(self).held(old(self)), final(self).in_transaction
>>>
fn MapDatabase::delete_block own
subst <<<
self.stmt_del.next() ==> self.stmt_del.step(&mut self.conn)
>>>
spec <<<
    requires old(self).wf()
    ensures final(self).wf(), r.is_ok(), final(self)@ == old(self)@.remove(map_key), final(self).held(old(self)), final(self).in_transaction
>>>
fn MapDatabase::vacuum own
spec <<<
    requires old(self).wf()
    ensures
        final(self).wf(), final(self)@ == old(self)@, final(self).conn@.ro == old(self).conn@.ro,
        // the file holds the blocks it held, plus this run's (there are none when vacuum runs alone)
        r.is_ok() ==> final(self).disk() == final(self)@,
        final(self).disk() == old(self).disk() || final(self).disk() == old(self)@,
>>>
