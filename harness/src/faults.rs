//! Streams with scripted behaviour: short transfers, interruptions and hard errors.

use crate::source::Source;
use std::cell::RefCell;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// Longest transfer of the k-th call (cyclic); empty: everything.
    pub short: Vec<usize>,
    /// Every k-th call is interrupted first (0: never).
    pub interrupt: u64,
    /// The call with this number (counting reads, writes, seeks and flushes) fails.
    pub fail_at: Option<u64>,
    /// All later calls fail as well.
    pub persistent: bool,
    pub kind: usize,
}

pub const KINDS: [ErrorKind; 4] =
    [ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::BrokenPipe, ErrorKind::TimedOut];

#[derive(Default)]
pub struct State {
    pub calls: u64,
    pub fired: u64,
    pub interrupted: u64,
    pub shortened: u64,
    interrupt_armed: bool,
}

pub fn gen_benign(s: &mut Source) -> Plan {
    let mut p = Plan::default();
    if s.chance(3, 4) {
        for _ in 0..s.urange(1, 4) {
            p.short.push(match s.below(4) {
                0 => 1,
                1 => s.urange(1, 7),
                2 => s.urange(1, 9),
                _ => s.urange(1, 600),
            });
        }
    }
    if s.flip() {
        p.interrupt = s.range(1, 5);
    }
    p
}

pub struct Stream<T> {
    pub inner: T,
    pub plan: Plan,
    pub state: Rc<RefCell<State>>,
}

impl<T> Stream<T> {
    pub fn new(inner: T, plan: Plan) -> (Self, Rc<RefCell<State>>) {
        let state = Rc::new(RefCell::new(State::default()));
        (Stream { inner, plan, state: state.clone() }, state)
    }
    /// Count the call; an error if it is to fail; otherwise the longest transfer.
    fn step(&mut self, len: usize, can_interrupt: bool) -> io::Result<usize> {
        let mut st = self.state.borrow_mut();
        st.calls += 1;
        if let Some(k) = self.plan.fail_at {
            if st.calls - 1 == k || (self.plan.persistent && st.calls - 1 > k) {
                st.fired += 1;
                return Err(io::Error::new(KINDS[self.plan.kind % KINDS.len()], "injected failure"));
            }
        }
        if can_interrupt && self.plan.interrupt > 0 {
            // an interruption is followed by at least one call that goes through
            if !st.interrupt_armed && st.calls % self.plan.interrupt == 0 {
                st.interrupt_armed = true;
                st.interrupted += 1;
                return Err(io::Error::new(ErrorKind::Interrupted, "injected interruption"));
            }
            st.interrupt_armed = false;
        }
        let mut n = len;
        if !self.plan.short.is_empty() {
            let lim = self.plan.short[(st.calls as usize) % self.plan.short.len()];
            if lim < n {
                n = lim;
                st.shortened += 1;
            }
        }
        Ok(n)
    }
}

impl<T: Read> Read for Stream<T> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.step(buf.len(), true)?;
        self.inner.read(&mut buf[..n])
    }
}
impl<T: Write> Write for Stream<T> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.step(buf.len(), true)?;
        self.inner.write(&buf[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        self.step(0, false)?;
        self.inner.flush()
    }
}
impl<T: Seek> Seek for Stream<T> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.step(0, false)?;
        self.inner.seek(p)
    }
}
