//! What happened in a run, in one global order.

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum Ev {
    // The boundary of the code under test. `total` counts the bytes of the direction so far.
    Dial { ep: u64, addr: String },
    Dialed { ep: u64, ok: bool },
    Close { ep: u64 },
    /// The sending half was closed.
    Shut { ep: u64 },
    Arrive { ep: u64, n: usize, total: u64 },
    /// The peer's end of stream (or reset) reached the socket.
    End { ep: u64, err: Option<String> },
    Read { ep: u64, n: usize, total: u64 },
    /// A read gave end of stream or an error.
    ReadEnd { ep: u64, err: Option<String> },
    Write { ep: u64, n: usize, total: u64 },
    WriteErr { ep: u64, err: String },
    /// Everything up to `total` that was read from `ep` had been handled when this poll ended.
    Handled { ep: u64, total: u64 },
    Print { text: String },
    TaskEnd { task: u64, name: String },
    Panic { task: u64, text: String },
    Spin { task: u64, text: String },
    // Peers.
    /// A complete line reached the peer.
    Got { ep: u64, line: String },
    /// Raw bytes reached the peer.
    GotBytes { ep: u64, bytes: Vec<u8> },
    /// The peer put a line on the wire; `end` is the stream position after it.
    Sent { ep: u64, line: String, end: u64 },
    SentBytes { ep: u64, bytes: Vec<u8>, end: u64 },
    PeerState { state: String },
    Fault { kind: &'static str },
    // Clients.
    Begin { call: u32, what: String },
    Ok { call: u32 },
    Err { call: u32, text: String },
    Abandon { call: u32 },
    See { what: &'static str, key: u32, value: String },
    Quiet { key: u32 },
    Did { what: &'static str, key: u32, bytes: Vec<u8> },
    Note { text: String },
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub at: u64,
    pub task: u64,
    pub ev: Ev,
}
