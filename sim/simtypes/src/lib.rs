//! Types exchanged between the simulated process (plan in, history out) and
//! the generator/oracle process.  All times in plans are microseconds of
//! simulated time, all times in histories are nanoseconds of simulated time.
use serde::{Deserialize, Serialize};

/// Small deterministic PRNG (splitmix64).
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        self.u64() % n.max(1)
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, percent: u64) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "lowercase")]
pub enum Bin {
    /// pica-http main()
    Http,
    /// pica main()
    Pica,
    /// public library API driven by /verif's own main()
    Lib,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "lowercase")]
pub enum PolicyKind {
    Fifo,
    Lifo,
    Rand,
    /// random priorities with change points
    Pct,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Policy {
    pub kind: PolicyKind,
    /// percent chance to poll the I/O driver before picking a task
    pub io_percent: u64,
    /// tokio coop budget given to each poll (0 = tokio's default)
    pub budget: u8,
    /// PCT: percent chance at each step that the running task is demoted
    pub change_percent: u64,
    /// deliver world events due at one instant in random batches
    pub partial: bool,
    /// percent chance that a task is preempted at each lock, atomic or channel operation
    #[serde(default)]
    pub preempt: u64,
    /// microseconds that up to PARKS preempted tasks stay preempted
    #[serde(default)]
    pub park: u64,
    /// percent chance that a step of a client waits for the server's next timer
    #[serde(default)]
    pub coincide: u64,
}

pub const PARKS: u64 = 4;

pub const REMOTE: &str = "remote";

impl Plan {
    /// The server's port for UCI hosts (kind 0) or HTTP clients (kind 1).
    pub fn port(&self, kind: u8) -> u16 {
        match (&self.start, kind) {
            (Some(s), 0) => s.uci_port,
            (Some(s), _) => s.web_port,
            (None, 0) => 7000,
            (None, _) => 3000,
        }
    }
    /// The longest time that holds can delay anything, in nanoseconds.
    pub fn hold_ns(&self) -> u64 {
        let parks = if self.policy.preempt > 0 { PARKS * self.policy.park + 20 } else { 0 };
        (self.holds.iter().map(|h| h.dur).sum::<u64>() + parks) * 1000
    }
}

/// Pause the task picked at scheduler step `step` for `dur` microseconds.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hold {
    pub step: u64,
    pub dur: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Seg {
    /// one segment per message
    Whole,
    /// fixed size segments
    Fixed { size: usize, gap: u64 },
    /// random sizes 1..=max, random gaps 0..=gap
    Random { max: usize, gap: u64, seed: u64 },
    /// coalesce: hold bytes until `size` bytes or next step is not a send
    Coalesce,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum CloseKind {
    /// close(): FIN now, RST in answer to any later data
    Fin,
    /// abortive close
    Rst,
    /// shutdown(SHUT_WR): FIN but keeps reading
    Half,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case", tag = "do")]
pub enum Act {
    /// A complete UCI message (4-byte header + payload), `frag` gives control
    /// fragment payload sizes (empty = as few fragments as possible).
    Send {
        hex: String,
        #[serde(default, skip_serializing_if = "Vec::is_empty")]
        frag: Vec<usize>,
    },
    /// Raw bytes.
    Raw { hex: String },
    Close { kind: CloseKind },
    /// Stop reading from the socket.
    Stall,
    Resume,
    Nop,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    /// earliest absolute time, microseconds
    #[serde(default)]
    pub at: u64,
    /// wait until all previous commands of this host were answered
    #[serde(default)]
    pub sync: bool,
    #[serde(flatten)]
    pub act: Act,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub note: String,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HostPlan {
    pub connect_at: u64,
    /// server -> client buffering (socket buffers) in bytes
    pub cap: usize,
    /// one-way latency in microseconds
    pub latency: u64,
    pub seg: Seg,
    pub steps: Vec<Step>,
    /// drop unread data when reset
    #[serde(default)]
    pub rst_discard: bool,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub role: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum HttpAbort {
    No,
    /// close (reset) the connection `after` microseconds after sending
    Rst { after: u64 },
    Fin { after: u64 },
    /// send only the first n bytes of the request, then reset
    Partial { bytes: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HttpStep {
    pub at: u64,
    pub method: String,
    pub path: String,
    #[serde(default)]
    pub body: String,
    /// no content-length / body split
    #[serde(default)]
    pub chunked: bool,
    pub abort: HttpAbort,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HttpPlan {
    pub cap: usize,
    pub latency: u64,
    pub seg: Seg,
    pub steps: Vec<HttpStep>,
    /// stop reading at / resume at
    #[serde(default)]
    pub stall: Option<(u64, u64)>,
    /// send requests without waiting for the answers to the earlier ones
    #[serde(default)]
    pub pipeline: bool,
    /// connects from another machine
    #[serde(default)]
    pub remote: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case", tag = "op")]
pub enum ApiOp {
    CreateAnchor { mac: String },
    DestroyAnchor { mac: String },
    /// drop the answer receiver without waiting
    CreateAnchorDrop { mac: String },
    DestroyAnchorDrop { mac: String },
    /// disconnect the nth device connected so far; a handle that no device
    /// has when there is no such device
    Disconnect { nth: u64 },
    /// take the engine lock and call add_device directly instead of through
    /// the command queue (only meaningful for hosts); ignored otherwise
    Nop,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ApiStep {
    pub at: u64,
    #[serde(flatten)]
    pub op: ApiOp,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AcceptFault {
    pub port: u16,
    /// window start, microseconds
    pub at: u64,
    /// window length; 0: a single failing call
    pub dur: u64,
    pub errno: i32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum FsKind {
    /// write only n bytes
    Short { n: usize },
    Eintr,
    /// error with this errno, for `count` calls (0 = for ever)
    Err { errno: i32, count: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FsFault {
    /// index of the file in open order
    pub file: usize,
    /// 0 = open(), n = n-th write call
    pub call: u64,
    pub kind: FsKind,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StartFault {
    /// socket | setsockopt | bind | listen
    pub call: String,
    /// the nth of these calls fails (0 = first)
    pub nth: u64,
    pub errno: i32,
}

/// How the server is started (default ports and no options otherwise).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Start {
    pub args: Vec<String>,
    /// what the arguments ask for
    pub uci_port: u16,
    pub web_port: u16,
    pub dir: Option<String>,
    /// the arguments can be satisfied
    pub valid: bool,
    /// ports used by other processes
    pub used: Vec<u16>,
    pub faults: Vec<StartFault>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub start: Option<Start>,
    pub bin: Bin,
    pub pcapng: bool,
    pub seed: u64,
    pub policy: Policy,
    #[serde(default)]
    pub holds: Vec<Hold>,
    #[serde(default)]
    pub hosts: Vec<HostPlan>,
    #[serde(default)]
    pub http: Vec<HttpPlan>,
    #[serde(default)]
    pub api: Vec<Vec<ApiStep>>,
    #[serde(default)]
    pub accept_faults: Vec<AcceptFault>,
    #[serde(default)]
    pub fs_faults: Vec<FsFault>,
    /// all file writes are short with this percent chance
    #[serde(default)]
    pub fs_short_percent: u64,
    /// traces of an earlier run of the server are still in the directory
    #[serde(default)]
    pub stale_traces: bool,
    /// lib: percentage of pairs without estimate
    #[serde(default)]
    pub est_none_percent: u64,
    /// faults, stalls and holds end here
    pub settle_at: u64,
    /// end of the run
    pub end_at: u64,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub profile: String,
}

// ---------------------------------------------------------------- history

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Mark {
    /// stream offset after this chunk
    pub end: u64,
    pub t: u64,
    /// for server -> client chunks: earliest time the data may have been
    /// produced (== t unless the socket was blocked)
    #[serde(default, skip_serializing_if = "is_zero")]
    pub lb: u64,
}
fn is_zero(v: &u64) -> bool {
    *v == 0
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct ConnHist {
    /// 0 = uci host, 1 = http client
    pub kind: u8,
    /// host or client index in the plan
    pub idx: usize,
    pub syn_at: u64,
    pub accepted_at: Option<u64>,
    pub accept_seq: Option<u64>,
    /// bytes that arrived at the server
    pub rx_hex: String,
    pub rx_arrive: Vec<Mark>,
    /// how much and when the server read
    pub rx_read: Vec<Mark>,
    /// bytes the server wrote
    pub tx_hex: String,
    pub tx: Vec<Mark>,
    /// bytes of tx that reached the client application, with times
    pub tx_client: Vec<Mark>,
    /// client FIN or RST arrival at the server
    pub fin_arrived: Option<u64>,
    pub rst_arrived: Option<u64>,
    /// server's FIN (shutdown or close) / close
    pub srv_fin: Option<u64>,
    pub srv_close: Option<u64>,
    /// refused: nobody listening
    pub refused: bool,
    /// ended by an injected accept fault (ECONNABORTED)
    pub aborted: bool,
    /// windows in which the server's writes were blocked
    pub blocked: Vec<(u64, u64)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct HttpReq {
    pub client: usize,
    pub step: usize,
    pub conn: usize,
    /// when the client started sending, when the last byte arrived at server
    pub t_send: u64,
    pub t_arrive: Option<u64>,
    /// offset of the connection's tx stream where the response starts
    pub tx_start: u64,
    pub tx_end: Option<u64>,
    pub aborted_at: Option<u64>,
    pub status: Option<u16>,
    pub complete: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct ApiRec {
    pub actor: usize,
    pub step: usize,
    pub t_call: u64,
    pub t_ret: Option<u64>,
    /// ok:<handle> | exists | notfound | closed | dropped
    pub result: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct FileHist {
    pub path: String,
    pub hex: String,
    pub open_err: Option<i32>,
    pub errors: u64,
    pub shorts: u64,
    pub eintrs: u64,
    pub closed: Option<u64>,
    /// sizes after each failed call, to identify torn records
    pub opened_at: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct History {
    /// done | exit:<detail> | panic:<msg> | livelock | deadlock | overflow
    pub outcome: String,
    pub t_end: u64,
    pub panics: Vec<String>,
    pub conns: Vec<ConnHist>,
    pub http: Vec<HttpReq>,
    pub api: Vec<ApiRec>,
    /// lib mode: (time, "connected"/"disconnected", handle, mac, lagged)
    pub events: Vec<(u64, String, u64, String)>,
    /// lib mode: host index -> handle (through the add_device path)
    pub handles: Vec<(usize, u64)>,
    pub files: Vec<FileHist>,
    /// fault kind -> count actually injected
    pub faults: std::collections::BTreeMap<String, u64>,
    pub steps: u64,
    /// hash of the sequence of scheduling decisions
    pub sched_hash: u64,
    /// number of decisions with more than one candidate
    pub choices: u64,
    pub sock_calls: u64,
    /// the run ended while the runtime was idle: whether a timer was armed
    #[serde(default)]
    pub armed: Option<bool>,
}

pub fn hex(b: &[u8]) -> String {
    const H: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(H[(x >> 4) as usize] as char);
        s.push(H[(x & 15) as usize] as char);
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let d = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => 0,
    };
    b.chunks(2).filter(|c| c.len() == 2).map(|c| d(c[0]) << 4 | d(c[1])).collect()
}

/// The estimator installed by sim-lib: a pure function of the pair.
pub fn estimate(none_percent: u64, left: u64, right: u64) -> Option<(u16, i16, i8)> {
    let mut r = Rng::new(left.wrapping_mul(0x1_0000_0001).wrapping_add(right).wrapping_add(77));
    // symmetric decision would hide missing checks, so it is per direction
    if r.below(100) < none_percent {
        return None;
    }
    if r.below(100) < 15 {
        // any value of the types is a measurement
        let range = *r.pick(&[0, 1, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff]);
        let az = *r.pick(&[0, -1, 180, -180, 255, 256, i16::MAX, i16::MIN]);
        let el = *r.pick(&[0, -1, 90, -90, 127, -128]);
        return Some((range, az, el));
    }
    Some((r.below(60000) as u16, (r.below(360) as i16) - 180, (r.below(180) as i16 - 90) as i8))
}
