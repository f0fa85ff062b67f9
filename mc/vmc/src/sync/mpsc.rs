pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};

use crate::rt;
use std::collections::VecDeque;
use std::fmt;
use std::sync::{Arc, Mutex as Real};
use std::time::Duration;

struct Chan<T> {
    q: VecDeque<(usize, T)>,
    senders: usize,
    receiver: bool,
    cap: Option<usize>,
    taken: u64,
    id: usize,
}
type Shared<T> = Arc<Real<Chan<T>>>;

pub struct Sender<T>(Shared<T>);
pub struct SyncSender<T>(Shared<T>);
pub struct Receiver<T>(Shared<T>, std::marker::PhantomData<std::cell::Cell<()>>);

fn make<T>(cap: Option<usize>) -> Shared<T> {
    let id = rt::try_world().map_or(usize::MAX, |w| {
        w.channels.push((0, 0));
        w.channels.len() - 1
    });
    Arc::new(Real::new(Chan { q: VecDeque::new(), senders: 1, receiver: true, cap, taken: 0, id }))
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = make(None);
    (Sender(c.clone()), Receiver(c, std::marker::PhantomData))
}
pub fn sync_channel<T>(cap: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = make(Some(cap));
    (SyncSender(c.clone()), Receiver(c, std::marker::PhantomData))
}

// a condition closure must be 'static: the channel outlives the wait because the waiting thread holds a handle
fn sent(id: usize) {
    if let Some(x) = rt::try_world().and_then(|w| w.channels.get_mut(id)) {
        x.0 += 1;
    }
}
fn looked(id: usize) {
    if let Some(w) = rt::try_world() {
        w.last_channel = id;
    }
}
struct Ptr<T>(*const Real<Chan<T>>);
impl<T> Ptr<T> {
    fn with<R>(&self, f: impl FnOnce(&mut Chan<T>) -> R) -> R {
        f(&mut unsafe { &*self.0 }.lock().unwrap())
    }
}
fn wait<T>(c: &Shared<T>, what: &'static str, deadline: Option<u64>, early: bool, cond: impl Fn(&mut Chan<T>) -> bool) -> bool {
    let p = Ptr(Arc::as_ptr(c));
    let cond: Box<dyn Fn(&mut Chan<T>) -> bool> = Box::new(cond);
    let f: Box<dyn FnMut() -> bool> = Box::new(move || p.with(|c| cond(c)));
    // only evaluated while the caller waits
    let f: Box<dyn FnMut() -> bool + 'static> = unsafe { std::mem::transmute(f) };
    rt::block(what, deadline, early, f)
}

impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        rt::point("send to a channel");
        let mut c = self.0.lock().unwrap();
        if !c.receiver {
            return Err(SendError(t));
        }
        sent(c.id);
        c.q.push_back((rt::current(), t));
        Ok(())
    }
}
impl<T> SyncSender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        rt::point("send to a bounded channel");
        wait(&self.0, "room in a channel", None, false, |c| !c.receiver || c.q.len() < c.cap.unwrap().max(1));
        let target = {
            let mut c = self.0.lock().unwrap();
            if !c.receiver {
                return Err(SendError(t));
            }
            sent(c.id);
        c.q.push_back((rt::current(), t));
            c.taken + c.q.len() as u64
        };
        if self.0.lock().unwrap().cap == Some(0) {
            wait(&self.0, "a rendezvous", None, false, move |c| !c.receiver || c.taken >= target);
        }
        Ok(())
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        rt::point("try to send to a bounded channel");
        let mut c = self.0.lock().unwrap();
        if !c.receiver {
            return Err(TrySendError::Disconnected(t));
        }
        if c.q.len() >= c.cap.unwrap() {
            return Err(TrySendError::Full(t));
        }
        sent(c.id);
        c.q.push_back((rt::current(), t));
        Ok(())
    }
}
impl<T> Receiver<T> {
    fn take(&self) -> Option<T> {
        let mut c = self.0.lock().unwrap();
        looked(c.id);
        let r = c.q.pop_front();
        r.map(|(from, t)| {
            c.taken += 1;
            if let Some(w) = rt::try_world() {
                w.last_sender = from;
                if let Some(x) = w.channels.get_mut(c.id) {
                    x.1 += 1;
                }
            }
            t
        })
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        rt::point("receive from a channel");
        wait(&self.0, "a message", None, false, |c| !c.q.is_empty() || c.senders == 0);
        self.take().ok_or(RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        rt::point("try to receive from a channel");
        if let Some(t) = self.take() {
            return Ok(t);
        }
        if self.0.lock().unwrap().senders == 0 { Err(TryRecvError::Disconnected) } else { Err(TryRecvError::Empty) }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        rt::point("receive from a channel");
        let end = rt::now().saturating_add(d.as_nanos() as u64);
        let ok = wait(&self.0, "a message", Some(end), true, |c| !c.q.is_empty() || c.senders == 0);
        if !ok {
            return Err(RecvTimeoutError::Timeout);
        }
        self.take().ok_or(RecvTimeoutError::Disconnected)
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}

impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.lock().unwrap().senders += 1;
        Sender(self.0.clone())
    }
}
impl<T> Clone for SyncSender<T> {
    fn clone(&self) -> Self {
        self.0.lock().unwrap().senders += 1;
        SyncSender(self.0.clone())
    }
}
fn drop_sender<T>(c: &Shared<T>) {
    if c.lock().unwrap().senders == 1 {
        rt::point("drop the last sender of a channel");
    }
    c.lock().unwrap().senders -= 1;
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        drop_sender(&self.0)
    }
}
impl<T> Drop for SyncSender<T> {
    fn drop(&mut self) {
        drop_sender(&self.0)
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        rt::point("drop the receiver of a channel");
        let rest = {
            let mut c = self.0.lock().unwrap();
            c.receiver = false;
            std::mem::take(&mut c.q)
        };
        drop(rest);
    }
}

pub struct Iter<'a, T>(&'a Receiver<T>);
pub struct TryIter<'a, T>(&'a Receiver<T>);
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Sender { .. }")
    }
}
impl<T> fmt::Debug for SyncSender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SyncSender { .. }")
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Receiver { .. }")
    }
}
