//! Added for /verif: an observation seam. With no probe installed the transcript
//! behaves exactly as upstream merlin 2.0.1.
use std::cell::{Cell, RefCell};

/// One transcript operation.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    /// `append_message`
    Append { id: u64, label: Vec<u8>, msg: Vec<u8> },
    /// `challenge_bytes`
    Challenge { id: u64, label: Vec<u8>, out: Vec<u8> },
}

thread_local! {
    static NEXT: Cell<u64> = Cell::new(0);
    static LOG: RefCell<Option<Vec<Event>>> = RefCell::new(None);
}

pub(crate) fn next_id() -> u64 {
    NEXT.with(|n| { let v = n.get(); n.set(v + 1); v })
}
pub(crate) fn on_append(id: u64, label: &[u8], msg: &[u8]) {
    LOG.with(|l| if let Some(v) = l.borrow_mut().as_mut() {
        v.push(Event::Append { id, label: label.to_vec(), msg: msg.to_vec() })
    })
}
pub(crate) fn on_challenge(id: u64, label: &[u8], out: &mut [u8]) {
    LOG.with(|l| if let Some(v) = l.borrow_mut().as_mut() {
        v.push(Event::Challenge { id, label: label.to_vec(), out: out.to_vec() })
    })
}
/// Start recording on this thread; transcript ids restart at 0.
pub fn start() { NEXT.with(|n| n.set(0)); LOG.with(|l| *l.borrow_mut() = Some(Vec::new())) }
/// Stop recording and return the events.
pub fn stop() -> Vec<Event> { LOG.with(|l| l.borrow_mut().take().unwrap_or_default()) }
