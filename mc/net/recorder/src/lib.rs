//! Stands where the node program expects vru-tcp: a node that records what it is asked to do and has no network.
use std::net::SocketAddr;
use std::rc::Rc;
use vmc_std::rt;
use vmc_std::sync::{atomic::AtomicBool, mpsc, Arc};
use vru_session::handshake::{PublicKey, SecretKey};
use vru_session::{Command, Event, NodeDisconnected, ProcessorFactory};

#[derive(Debug)]
pub struct NodeError(pub u32);
impl std::fmt::Display for NodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "recorded failure {}", self.0)
    }
}
impl std::error::Error for NodeError {}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Recorded {
    Connect { peer: String, address: SocketAddr },
    Local { peer: String, command: Vec<u8> },
}
#[derive(Default, Clone)]
pub struct Record {
    pub spawned: Vec<(String, SocketAddr)>,
    /// The keys the node was given.
    pub keys: Vec<Rc<(PublicKey, SecretKey)>>,
    pub commands: Vec<Recorded>,
    pub joined: usize,
    /// What the node will report, at whatever times: text, an error, or something a peer sent. Capitals are all alike.
    pub plan: Vec<char>,
    /// The node cannot be started.
    pub refuse: bool,
}
/// The text that tells the i-th planned event from every other.
pub fn marker(i: usize) -> String {
    format!("{}", 735_190_001 + i)
}
/// The number all events in capitals share.
pub const ALIKE: usize = 9_000;
/// The record lives in the world's `user` slot.
pub fn record<'a>() -> &'a mut Record {
    let w = rt::world();
    if w.user.is_none() {
        w.user = Some(Box::new(Record::default()));
    }
    w.user.as_mut().unwrap().downcast_mut().expect("record")
}

pub struct NodeRef(mpsc::Receiver<Event<NodeError>>);
impl vru_session::NodeRef<NodeError> for NodeRef {
    fn recv(&self) -> Result<Event<NodeError>, NodeDisconnected> {
        self.0.recv().map_err(|_| NodeDisconnected)
    }
    fn try_recv(&self) -> Result<Option<Event<NodeError>>, NodeDisconnected> {
        match self.0.try_recv() {
            Ok(e) => Ok(Some(e)),
            Err(mpsc::TryRecvError::Empty) => Ok(None),
            Err(mpsc::TryRecvError::Disconnected) => Err(NodeDisconnected),
        }
    }
}
pub struct Node<P> {
    _sender: mpsc::Sender<Event<NodeError>>,
    reporter: Option<rt::Tid>,
    _p: P,
}
impl<P> vru_session::Node<P> for Node<P>
where
    P: ProcessorFactory + Clone + Send + 'static,
{
    type Error = NodeError;
    type Ref = NodeRef;
    type Address = SocketAddr;

    fn spawn(sk: SecretKey, pk: PublicKey, address: SocketAddr, p: P, _: Arc<AtomicBool>) -> Result<(Self, NodeRef), NodeError> {
        let (s, r) = mpsc::channel();
        rt::point("start the node");
        if record().refuse {
            return Err(NodeError(735_190_000));
        }
        rt::world().effects += 1;
        record().spawned.push((pk.identity().to_string(), address));
        let plan = record().plan.clone();
        let reporter = (!plan.is_empty()).then(|| {
            let (s, pk) = (s.clone(), pk.clone());
            rt::spawn("node".into(), true, move || {
                for (i, kind) in plan.iter().enumerate() {
                    rt::point("about to report");
                    let i = if kind.is_ascii_uppercase() { ALIKE } else { i };
                    let _ = s.send(match kind.to_ascii_lowercase() {
                        'e' => Event::Error(NodeError(735_190_001 + i as u32)),
                        'l' => Event::Local { source: Box::new(pk.clone()), local: marker(i).into_bytes() },
                        _ => Event::DebugInfo(marker(i)),
                    });
                }
            })
        });
        record().keys.push(Rc::new((pk, sk)));
        Ok((Node { _sender: s, reporter, _p: p }, NodeRef(r)))
    }
    fn command(&self, c: Command<SocketAddr>) {
        rt::point("command");
        let c = match c {
            Command::Connect { peer_pi, address } => Recorded::Connect { peer: peer_pi.to_string(), address },
            Command::Local { destination, command } => Recorded::Local { peer: destination.to_string(), command },
        };
        rt::note(|| format!("command {:?}", c));
        rt::world().effects += 1;
        record().commands.push(c);
    }
    fn join(self) {
        rt::point("join the node");
        if let Some(t) = self.reporter {
            rt::block("the node to end", None, false, move || rt::is_done(t));
        }
        record().joined += 1;
    }
}
