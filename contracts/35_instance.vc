module events instance.rs
enum LogType
enum ServerEvent
enum ClientEvent
raw <<<
/// The messages among the events.
pub open spec fn messages(s: Seq<ServerEvent>) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        match s.last() { ServerEvent::Log(_, m) => messages(s.drop_last()).push(m@), _ => messages(s.drop_last()) }
    }
}
pub broadcast proof fn messages_push(s: Seq<ServerEvent>, e: ServerEvent)
    ensures #[trigger] messages(s.push(e)) == (match e { ServerEvent::Log(_, m) => messages(s).push(m@), _ => messages(s) })
{
    assert(s.push(e).drop_last() =~= s);
}
>>>

module instance instance.rs
enum InstState derive=copy
struct InstArgs
struct InstStatus clone
struct StatusServer
struct StatusClient
raw <<<
broadcast use crate::events::messages_push;
impl VKept for InstStatus {
    /// Never more blocks done than there are.
    open spec fn kept(self) -> bool { self.blocks_done <= self.blocks_total }
}
impl StatusServer {
    pub open spec fn counts(&self) -> InstStatus { self.status.m.v }
    pub open spec fn view(&self) -> StatusV {
        StatusV {
            total: self.counts().blocks_total as nat, done: self.counts().blocks_done as nat, failed: self.counts().blocks_failed as nat,
            log: messages(self.event_tx.sent()),
            answer: match self.event_rx.next() { Some(ClientEvent::ConfirmResponse(b)) => b, None => false },
        }
    }
}
>>>
raw <<<
impl StatusClient {
    /// The confirmations sent so far.
    pub open spec fn answers(&self) -> Seq<ClientEvent> { self.event_tx.sent() }
    /// What the client can see keeps the invariant.
    pub open spec fn sound(&self) -> bool { self.status.m.v.kept() }
}
>>>
fn StatusClient::get_status recv=mut
subst <<<
lock().unwrap() ==> v_locked()
>>>
spec <<<
    requires old(self).sound()
    ensures *final(self) == *old(self), r.kept()
>>>
fn StatusClient::receiver
spec <<<
    ensures *r == self.event_rx
>>>
fn StatusClient::send_confirmation recv=mut
spec <<<
    ensures final(self).answers() == old(self).answers().push(ClientEvent::ConfirmResponse(choice)), final(self).status == old(self).status
>>>
fn InstStatus::new
spec <<<
    ensures r.blocks_total == 0, r.blocks_done == 0, r.blocks_failed == 0, r.show_progress
>>>
fn StatusServer::get_status recv=mut
subst <<<
lock().unwrap() ==> v_locked()
>>>
spec <<<
    ensures *final(self) == *old(self), r == old(self).counts()
>>>
fn StatusServer::set_state recv=mut
subst <<<
lock().unwrap() ==> v_locked()
>>>
spec <<<
    ensures final(self)@ == old(self)@, final(self).counts() == (InstStatus { state: new_state, ..old(self).counts() })
>>>
fn StatusServer::set_total recv=mut
subst <<<
lock().unwrap() ==> v_locked()
>>>
spec <<<
    requires old(self)@.done <= total
    ensures final(self).counts().kept(), final(self)@ == (StatusV { total: total as nat, ..old(self)@ }), final(self).counts() == (InstStatus { blocks_total: total, ..old(self).counts() })
>>>
fn StatusServer::inc_done recv=mut
subst <<<
lock().unwrap() ==> v_locked()
>>>
spec <<<
    requires old(self)@.done < old(self)@.total
    ensures final(self).counts().kept(), final(self)@ == (StatusV { done: old(self)@.done + 1, ..old(self)@ })
>>>
fn StatusServer::inc_failed recv=mut
subst <<<
lock().unwrap() ==> v_locked()
>>>
spec <<<
    requires old(self)@.failed < usize::MAX
    ensures final(self)@ == (StatusV { failed: old(self)@.failed + 1, ..old(self)@ })
>>>
fn StatusServer::set_show_progress recv=mut
subst <<<
lock().unwrap() ==> v_locked()
>>>
spec <<<
    ensures final(self)@ == old(self)@, final(self).counts() == (InstStatus { show_progress: sp, ..old(self).counts() })
>>>
fn StatusServer::begin_editing recv=mut
spec <<<
    ensures final(self)@ == old(self)@, final(self).counts().state is Editing
>>>
fn StatusServer::end_editing recv=mut
spec <<<
    ensures final(self)@ == old(self)@, final(self).counts().state is Ignore
>>>
fn StatusServer::get_confirmation recv=mut
spec <<<
    ensures r == old(self)@.answer, final(self)@.log == old(self)@.log, final(self).counts() == old(self).counts()
>>>
loop 0 <<<
    invariant_except_break self.event_rx.next() == old(self).event_rx.next()
    invariant self.status == old(self).status, messages(self.event_tx.sent()) == old(self)@.log
    ensures old(self).event_rx.next().is_none()
    decreases 1int
>>>
fn StatusServer::log recv=mut
subst <<<
msg.as_ref() ==> msg.v_as_str()
>>>
spec <<<
    ensures final(self)@ == (StatusV { log: old(self)@.log.push(msg.show()), ..old(self)@ }), final(self).counts() == old(self).counts(), final(self).event_rx == old(self).event_rx
>>>
fn StatusServer::log_info recv=mut
spec <<<
    ensures final(self)@ == (StatusV { log: old(self)@.log.push(msg.show()), ..old(self)@ })
>>>
fn StatusServer::log_warning recv=mut
spec <<<
    ensures final(self)@ == (StatusV { log: old(self)@.log.push(msg.show()), ..old(self)@ })
>>>
fn StatusServer::log_error recv=mut
spec <<<
    ensures final(self)@ == (StatusV { log: old(self)@.log.push(msg.show()), ..old(self)@ })
>>>
fn status_link
spec <<<
    ensures r.0@.fresh(), r.0@.log.len() == 0, r.1.answers().len() == 0, r.1.sound()
>>>
