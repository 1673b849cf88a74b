//! Stand-in for actix-telepathy: reliable FIFO channel per ordered pair of
//! cluster nodes, no order between different pairs.  Messages are handed over by a
//! plain move; their encoding as bytes is not modelled.
#![allow(static_mut_refs)]
use actix::dev::ToEnvelope;
use actix::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::hash::{Hash, Hasher};
use std::net::SocketAddr;
mod wire;
pub use actix_telepathy_derive::{RemoteActor, RemoteMessage};

pub trait RemoteMessage: Message + Send + Serialize + DeserializeOwned + 'static {
    const IDENTIFIER: &'static str;
    fn set_source(&mut self, addr: Addr<NetworkInterface>);
}

pub struct RemoteWrapper {
    pub destination: RemoteAddr,
    pub identifier: &'static str,
    msg: Option<Box<dyn Any>>,
    source: Option<Addr<NetworkInterface>>,
}
impl Message for RemoteWrapper {
    type Result = ();
}
impl RemoteWrapper {
    pub fn is<M: 'static>(&self) -> bool {
        self.msg.as_ref().map_or(false, |m| m.is::<M>())
    }
    pub fn take<M: 'static>(&mut self) -> (M, Option<Addr<NetworkInterface>>) {
        let b = self.msg.take().unwrap().downcast::<M>().unwrap();
        (*b, self.source.clone())
    }
}

pub struct NetworkInterface;
impl Actor for NetworkInterface {
    type Context = Context<Self>;
}

pub trait RemoteActor
where
    Self: Actor + Handler<RemoteWrapper>,
{
    const ACTOR_ID: &'static str;
    fn register(&mut self, rec: Recipient<RemoteWrapper>) {
        net::register(sched_node(), Self::ACTOR_ID.to_string(), rec);
    }
}
fn sched_node() -> usize {
    actix::sched::node()
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum AddrRepresentation {
    NetworkInterface,
    Connector,
    Key(String),
}

#[derive(Deserialize, Serialize, Debug)]
pub struct Node {
    pub socket_addr: SocketAddr,
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub network_interface: Option<Addr<NetworkInterface>>,
}
impl Node {
    pub fn new(socket_addr: SocketAddr, network_interface: Option<Addr<NetworkInterface>>) -> Self {
        Self { socket_addr, network_interface }
    }
    pub fn get_remote_addr(&self, id: String) -> RemoteAddr {
        RemoteAddr { node: self.clone(), id: AddrRepresentation::Key(id) }
    }
}
impl Default for Node {
    fn default() -> Self {
        Node { socket_addr: "0.1.2.3:8080".parse().unwrap(), network_interface: None }
    }
}
impl Clone for Node {
    fn clone(&self) -> Self {
        Node::new(self.socket_addr, self.network_interface.clone())
    }
}
impl PartialEq for Node {
    fn eq(&self, other: &Self) -> bool {
        self.socket_addr.eq(&other.socket_addr)
    }
}
impl Eq for Node {}
impl Hash for Node {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.socket_addr.hash(state);
    }
}

#[derive(Deserialize, Serialize, Debug)]
pub struct RemoteAddr {
    pub node: Node,
    pub(crate) id: AddrRepresentation,
}
pub struct SentFuture;
impl std::future::Future for SentFuture {
    type Output = Result<(), ()>;
    fn poll(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {
        std::task::Poll::Ready(Ok(()))
    }
}
impl RemoteAddr {
    pub fn new(node: Node, id: AddrRepresentation) -> Self {
        RemoteAddr { node, id }
    }
    pub fn new_from_id(socket_addr: SocketAddr, id: &str) -> Self {
        RemoteAddr { node: Node::new(socket_addr, None), id: AddrRepresentation::Key(id.to_string()) }
    }
    pub fn new_from_key(socket_addr: SocketAddr, ni: Addr<NetworkInterface>, id: &str) -> Self {
        RemoteAddr { node: Node::new(socket_addr, Some(ni)), id: AddrRepresentation::Key(id.to_string()) }
    }
    pub fn set_network_interface(&mut self, ni: Addr<NetworkInterface>) {
        self.node.network_interface = Some(ni);
    }
    pub fn change_id(&mut self, id: String) {
        self.id = AddrRepresentation::Key(id);
    }
    pub fn do_send<T: RemoteMessage>(&self, msg: T) {
        let ni = self.node.network_interface.as_ref().expect("Network interface must be set!");
        net::send(ni.vx_id(), self.clone(), msg)
    }
    pub fn wait_send<T: RemoteMessage>(&self, msg: T) -> SentFuture {
        self.do_send(msg);
        SentFuture
    }
}
impl Default for RemoteAddr {
    fn default() -> Self {
        RemoteAddr { node: Node::default(), id: AddrRepresentation::Key("Default".to_string()) }
    }
}
impl Clone for RemoteAddr {
    fn clone(&self) -> Self {
        RemoteAddr::new(self.node.clone(), self.id.clone())
    }
}
impl PartialEq for RemoteAddr {
    fn eq(&self, other: &Self) -> bool {
        self.node.eq(&other.node) && self.id.eq(&other.id)
    }
}
impl Eq for RemoteAddr {}
impl Hash for RemoteAddr {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.node.hash(state);
        self.id.hash(state);
    }
}

pub enum AnyAddr<A: Actor> {
    Local(Addr<A>),
    Remote(RemoteAddr),
}
impl<A: Actor> AnyAddr<A> {
    pub fn do_send<M>(&self, msg: M)
    where
        M: RemoteMessage,
        M::Result: Send,
        A: Handler<M>,
        A::Context: ToEnvelope<A, M>,
    {
        match self {
            AnyAddr::Local(addr) => addr.do_send(msg),
            AnyAddr::Remote(addr) => addr.do_send(msg),
        }
    }
    pub fn change_id(&mut self, id: &str) {
        if let AnyAddr::Remote(addr) = self {
            addr.change_id(id.to_string());
        }
    }
}
impl<T: Actor> Clone for AnyAddr<T> {
    fn clone(&self) -> Self {
        match self {
            AnyAddr::Local(a) => AnyAddr::Local(a.clone()),
            AnyAddr::Remote(a) => AnyAddr::Remote(a.clone()),
        }
    }
}
impl<T: Actor> PartialEq for AnyAddr<T> {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (AnyAddr::Local(a), AnyAddr::Local(b)) => a.eq(b),
            (AnyAddr::Remote(a), AnyAddr::Remote(b)) => a.eq(b),
            _ => false,
        }
    }
}
impl<T: Actor> Eq for AnyAddr<T> {}

pub enum ClusterLog {
    NewMember(Node),
    MemberLeft(SocketAddr),
}
impl Message for ClusterLog {
    type Result = ();
}
impl Clone for ClusterLog {
    fn clone(&self) -> Self {
        match self {
            ClusterLog::NewMember(node) => ClusterLog::NewMember(node.clone()),
            ClusterLog::MemberLeft(addr) => ClusterLog::MemberLeft(*addr),
        }
    }
}
pub trait ClusterListener: Actor + Handler<ClusterLog> {}

pub struct Cluster;
impl Actor for Cluster {
    type Context = Context<Self>;
}
impl Cluster {
    #[allow(clippy::new_ret_no_self)]
    pub fn new(_addr: SocketAddr, _seeds: Vec<SocketAddr>) -> Addr<Cluster> {
        Cluster.start()
    }
}

pub mod net {
    use super::*;
    pub struct Net {
        reg: Vec<(usize, String, Recipient<RemoteWrapper>)>,
        nodes: Vec<SocketAddr>,
        pub sent: usize,
        pub undeliverable: usize,
    }
    static mut N: Option<Box<Net>> = None;
    pub fn n() -> &'static mut Net {
        unsafe {
            if N.is_none() {
                N = Some(Box::new(Net { reg: vec![], nodes: vec![], sent: 0, undeliverable: 0 }));
            }
            N.as_mut().unwrap()
        }
    }
    pub fn reset() {
        unsafe { std::mem::forget(N.take()) }
    }
    pub fn register(node: usize, id: String, rec: Recipient<RemoteWrapper>) {
        actix::sched::dirty();
        for r in n().reg.iter_mut() {
            if r.0 == node && r.1 == id {
                r.2 = rec;
                return;
            }
        }
        n().reg.push((node, id, rec));
    }
    /// declare the socket address of the next cluster node
    pub fn add_node(a: SocketAddr) {
        n().nodes.push(a)
    }
    /// the view node `i` has of the member with the given address
    pub fn member(j: usize) -> Node {
        Node::new(n().nodes[j], Some(Addr::vx_from_id(j)))
    }
    pub fn send<T: RemoteMessage>(dst: usize, to: RemoteAddr, msg: T) {
        let src = sched_node();
        n().sent += 1;
        let msg: T = wire::transfer(msg);
        actix::sched::remote(
            src,
            dst,
            Box::new(move || {
                let id = match &to.id {
                    AddrRepresentation::Key(k) => k.clone(),
                    _ => String::new(),
                };
                for r in n().reg.iter() {
                    if r.0 == dst && r.1 == id {
                        r.2.do_send(RemoteWrapper {
                            destination: to,
                            identifier: T::IDENTIFIER,
                            msg: Some(Box::new(msg)),
                            source: Some(Addr::vx_from_id(src)),
                        });
                        return;
                    }
                }
                n().undeliverable += 1;
            }),
        );
    }
}

pub mod prelude {
    pub use super::{
        AddrRepresentation, AnyAddr, Cluster, ClusterListener, ClusterLog, NetworkInterface, RemoteActor, RemoteAddr,
        RemoteMessage, RemoteWrapper,
    };
}
