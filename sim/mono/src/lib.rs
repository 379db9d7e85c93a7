//! Instantiates the generic code of the system under test in a crate that is compiled with
//! instrumentation, so that preemption can happen inside it.
use serde_json::Value;
use std::io::{BufRead, Write};
use xi_rpc::{Handler, Peer, ReadError, RemoteError, RpcCtx, RpcLoop, RpcPeer};

pub type Out = Box<dyn Write + Send>;
pub type In = Box<dyn BufRead>;

#[derive(serde::Deserialize, Debug)]
#[serde(rename_all = "snake_case", tag = "method", content = "params")]
pub enum Note {
    Poke { n: u64 },
    Idle { tokens: Vec<usize> },
    Timers { t: Vec<(u64, usize)> },
    Panic {},
}
#[derive(serde::Deserialize, Debug)]
#[serde(rename_all = "snake_case", tag = "method", content = "params")]
pub enum Req {
    Echo {
        n: u64,
        #[serde(default)]
        pad: String,
    },
    Fail { n: u64, code: i64 },
    Nested { n: u64 },
}
pub trait Served {
    fn note(&mut self, c: &RpcCtx, n: Note);
    fn req(&mut self, c: &RpcCtx, r: Req) -> Result<Value, RemoteError>;
    fn idle(&mut self, _c: &RpcCtx, _token: usize) {}
}
struct Dyn<'a>(&'a mut dyn Served);
impl<'a> Handler for Dyn<'a> {
    type Notification = Note;
    type Request = Req;
    fn handle_notification(&mut self, c: &RpcCtx, n: Note) {
        self.0.note(c, n)
    }
    fn handle_request(&mut self, c: &RpcCtx, r: Req) -> Result<Value, RemoteError> {
        self.0.req(c, r)
    }
    fn idle(&mut self, c: &RpcCtx, t: usize) {
        self.0.idle(c, t)
    }
}
pub struct Loop(RpcLoop<Out>);
impl Loop {
    pub fn new(w: Out) -> Loop {
        Loop(RpcLoop::new(w))
    }
    pub fn peer(&self) -> RpcPeer {
        Box::new(self.0.get_raw_peer())
    }
    pub fn run(&mut self, rf: Box<dyn FnOnce() -> In + Send>, h: &mut dyn Served) -> Result<(), ReadError> {
        self.0.mainloop(rf, &mut Dyn(h))
    }
}
pub fn clone_peer(p: &RpcPeer) -> RpcPeer {
    p.box_clone()
}
pub fn as_peer(p: &RpcPeer) -> &dyn Peer {
    &**p
}

/// The whole core, as the shipped binary runs it.
pub fn run_core(rf: Box<dyn FnOnce() -> In + Send>, w: Out) -> Result<(), ReadError> {
    let mut core = xi_core_lib::XiCore::new();
    let mut l = RpcLoop::new(w);
    l.mainloop(rf, &mut core)
}
