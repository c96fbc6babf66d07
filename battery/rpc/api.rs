//! The namespaces, types and backends under test.
use std::collections::BTreeMap;
use std::pin::Pin;
use std::sync::Mutex;
use std::task::{Context, Poll};

use futures::channel::{mpsc, oneshot};
use futures::{Stream, StreamExt};
use serde::Serialize;
use serde_json::{json, Value};
use zod::*;

pub static LOG: Mutex<Vec<Value>> = Mutex::new(Vec::new());
pub static TAPS: Mutex<BTreeMap<u32, Option<mpsc::UnboundedSender<u32>>>> = Mutex::new(BTreeMap::new());
pub static DROPPED: Mutex<Vec<u32>> = Mutex::new(Vec::new());
pub static GATES: Mutex<BTreeMap<u32, oneshot::Sender<()>>> = Mutex::new(BTreeMap::new());

pub fn log(ns: &str, method: &str, args: Value) {
    LOG.lock().unwrap().push(json!([ns, method, args]));
}

pub struct Tap {
    key: u32,
    rx: mpsc::UnboundedReceiver<u32>,
}

impl Tap {
    fn new(key: u32) -> Self {
        let (tx, rx) = mpsc::unbounded();
        TAPS.lock().unwrap().insert(key, Some(tx));
        Tap { key, rx }
    }
}

impl Stream for Tap {
    type Item = u32;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u32>> {
        self.rx.poll_next_unpin(cx)
    }
}

impl Drop for Tap {
    fn drop(&mut self) {
        DROPPED.lock().unwrap().push(self.key);
    }
}

/// A value which cannot be serialized from 100 on.
#[derive(Zod)]
#[zod(namespace = "Alpha")]
pub struct Bad {
    pub value: u32,
}

impl Serialize for Bad {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeStruct;
        if self.value >= 100 {
            return Err(serde::ser::Error::custom(format!("bad value {}", self.value)));
        }
        let mut st = s.serialize_struct("Bad", 1)?;
        st.serialize_field("value", &self.value)?;
        st.end()
    }
}

#[derive(Namespace)]
pub struct Alpha(u64);

#[zod::rpc::namespace]
impl Alpha {
    pub async fn m0(&mut self) -> u32 {
        log("Alpha", "m0", json!([]));
        self.0 += 1;
        7
    }
    pub async fn m1(&mut self, a: u32) -> u32 {
        log("Alpha", "m1", json!([a]));
        a + 1
    }
    pub async fn m2(&mut self, b: String, a: u32) -> String {
        log("Alpha", "m2", json!([b, a]));
        format!("{b}-{a}")
    }
    const UNRELATED: usize = 3;
    pub async fn m3(&mut self, a: u8, #[allow(unused_mut)] mut b: u8, #[cfg(all())] c: u8) -> (u8, u8, u8) {
        log("Alpha", "m3", json!([a, b, c]));
        (c, b, a)
    }
    pub async fn m5(&mut self, e: i32, d: i32, c: i32, b: i32, a: i32) -> Vec<i32> {
        log("Alpha", "m5", json!([e, d, c, b, a]));
        vec![e, d, c, b, a]
    }
    pub async fn unit(&mut self, x: bool) {
        log("Alpha", "unit", json!([x]));
    }
    pub async fn unit2(&mut self) -> () {
        log("Alpha", "unit2", json!([]));
    }
    pub async fn opt(&mut self, x: Option<u32>) -> Option<u32> {
        log("Alpha", "opt", json!([x]));
        x.map(|x| x * 2)
    }
    pub async fn res(&mut self, x: u8) -> Result<String, u8> {
        log("Alpha", "res", json!([x]));
        if x < 10 { Ok(x.to_string()) } else { Err(x) }
    }
    pub async fn bad(&mut self, value: u32) -> Bad {
        log("Alpha", "bad", json!([value]));
        Bad { value }
    }
    pub async fn nested(&mut self, v: Vec<(u8, String)>, t: (bool,)) -> Vec<(u8, String)> {
        log("Alpha", "nested", json!([v, t]));
        v
    }
    pub async fn slow(&mut self, turns: u32) -> u32 {
        log("Alpha", "slow", json!([turns]));
        for _ in 0..turns {
            tokio::task::yield_now().await;
        }
        log("Alpha", "slow:end", json!([turns]));
        turns
    }
    pub async fn wait(&mut self, gate: u32) -> u32 {
        log("Alpha", "wait", json!([gate]));
        let (tx, rx) = oneshot::channel();
        GATES.lock().unwrap().insert(gate, tx);
        let _ = rx.await;
        log("Alpha", "wait:end", json!([gate]));
        gate
    }
    pub fn iter(&mut self, from: u32, to: u32) -> impl Stream<Item = u32> {
        log("Alpha", "iter", json!([from, to]));
        futures::stream::iter(from..to)
    }
    pub fn tap(&mut self, key: u32) -> impl Stream<Item = u32> {
        log("Alpha", "tap", json!([key]));
        Tap::new(key)
    }
    pub fn tapc(&mut self, key: u32) -> Tap {
        log("Alpha", "tapc", json!([key]));
        Tap::new(key)
    }
    pub fn badtap(&mut self, key: u32) -> impl Stream<Item = Bad> {
        log("Alpha", "badtap", json!([key]));
        Tap::new(key).map(|value| Bad { value })
    }
    /// Documented.
    #[doc(hidden)]
    #[must_use]
    pub fn strings(#[allow(unused)] &mut self, r#in: String, n: u8, pad: Option<String>) -> impl Stream<Item = String> {
        log("Alpha", "strings", json!([r#in, n, pad]));
        let pad = pad.unwrap_or_default();
        futures::stream::iter((0..n).map(move |i| format!("{in}{pad}{i}", in = r#in)))
    }
    #[cfg(all())]
    #[inline]
    #[allow(clippy::all)]
    #[deprecated]
    pub(crate) async fn echo(&mut self, x: String) -> String {
        log("Alpha", "echo", json!([x]));
        x
    }
    pub async fn flag(&mut self, x: bool) -> bool {
        log("Alpha", "flag", json!([x]));
        x
    }
    #[cfg(debug_assertions)]
    pub(super) fn opts(&mut self, n: u8) -> impl Stream<Item = Option<Vec<u8>>> {
        log("Alpha", "opts", json!([n]));
        futures::stream::iter((0..n).map(|i| match i % 3 {
            0 => None,
            1 => Some(vec![]),
            _ => Some(vec![i]),
        }))
    }
    pub fn closed(&mut self) -> impl Stream<Item = u32> {
        log("Alpha", "closed", json!([]));
        futures::stream::empty()
    }
}

/// Exported as `Gamma`, while `Gamma` is exported as `Beta`.
#[derive(Namespace)]
#[namespace(name = "Gamma")]
pub struct Beta;

#[zod::rpc::namespace]
impl Beta {
    async fn m1(&mut self, a: u32) -> u32 {
        log("Beta", "m1", json!([a]));
        a + 2
    }
    async fn get(&mut self) -> BetaItem {
        log("Beta", "get", json!([]));
        BetaItem { z_last: 1, a_first: "x".into() }
    }
    async fn only_beta(&mut self, item: BetaItem) -> u8 {
        log("Beta", "only_beta", json!([item]));
        item.z_last
    }
    fn tap(&mut self, key: u32) -> impl Stream<Item = u32> {
        log("Beta", "tap", json!([key]));
        Tap::new(key)
    }
}

#[derive(Zod, Serialize, serde::Deserialize, Debug)]
#[zod(namespace = "Beta")]
pub struct BetaItem {
    z_last: u8,
    a_first: String,
}

#[derive(Namespace)]
#[namespace(name = "Beta")]
pub struct Gamma;

#[zod::rpc::namespace]
impl Gamma {
    async fn m1(&mut self, a: u32) -> u32 {
        log("Gamma", "m1", json!([a]));
        a + 3
    }
    async fn get(&mut self) -> u32 {
        log("Gamma", "get", json!([]));
        33
    }
}

/// Raw identifiers and similar names.
#[derive(Namespace)]
#[namespace(name = "aRaw")]
pub struct Raw;

#[zod::rpc::namespace]
impl Raw {
    async fn r#type(&mut self, r#match: u32, r#fn: String) -> String {
        log("Raw", "type", json!([r#match, r#fn]));
        format!("{match}{fn}", match = r#match, fn = r#fn)
    }
    async fn get_all(&mut self) -> u32 {
        log("Raw", "get_all", json!([]));
        1
    }
    async fn get(&mut self) -> u32 {
        log("Raw", "get", json!([]));
        2
    }
    #[allow(non_snake_case)]
    async fn getAll(&mut self) -> u32 {
        log("Raw", "getAll", json!([]));
        3
    }
    fn r#loop(&mut self, r#use: u32) -> impl Stream<Item = u32> {
        log("Raw", "loop", json!([r#use]));
        Tap::new(r#use)
    }
    async fn method(&mut self, method: String, namespace: u8) -> u8 {
        log("Raw", "method", json!([method, namespace]));
        namespace
    }
    async fn id(&mut self, id: u8, args: u8, sender: u8, ctx: u8, res: u8) -> Vec<u8> {
        log("Raw", "id", json!([id, args, sender, ctx, res]));
        vec![id, args, sender, ctx, res]
    }
}

/// Only types.
#[derive(Namespace)]
pub struct Types;

#[zod::rpc::namespace]
impl Types {}

/// Documented
/// type
#[derive(Zod, serde::Deserialize)]
#[zod(namespace = "Types")]
#[serde(rename = "Renamed")]
#[allow(dead_code)]
pub struct First {
    a: u8,
    b: Option<Vec<Second>>,
}

#[derive(Zod, serde::Deserialize)]
#[zod(namespace = "Types")]
#[allow(dead_code)]
pub enum Second {
    A,
    B(u8),
    C { d: String },
}

#[derive(Zod)]
#[zod(namespace = "Types")]
pub struct Third(pub u8, pub String);

#[derive(Zod)]
#[zod(namespace = "Types")]
pub struct Fourth(pub bool);

/// Neither types nor methods.
#[derive(Namespace)]
pub struct r#Empty;

#[zod::rpc::namespace]
impl Empty {}

/// Only methods.
#[derive(Namespace)]
pub struct r#Calls;

#[zod::rpc::namespace]
impl Calls {
    async fn ping(&mut self) -> String {
        log("Calls", "ping", json!([]));
        "pong".into()
    }
}

/// In no backend but the other one.
#[derive(Namespace)]
pub struct Other;

#[zod::rpc::namespace]
impl Other {
    async fn m1(&mut self, a: u32) -> u32 {
        log("Other", "m1", json!([a]));
        a + 4
    }
}

#[derive(Zod)]
#[zod(namespace = "Other")]
#[allow(dead_code)]
pub struct OtherItem {
    a: u8,
}

/// The name of another namespace in other letters; in no backend.
#[derive(Namespace)]
#[allow(non_camel_case_types, clippy::upper_case_acronyms)]
pub struct OTHER;

#[zod::rpc::namespace]
impl OTHER {}

#[derive(Zod)]
#[zod(namespace = "OTHER")]
#[allow(dead_code)]
pub struct Item {
    a: u8,
}

#[derive(Namespace)]
#[namespace(name = "AlphaTypes")]
pub struct AlphaTypes;

#[zod::rpc::namespace]
impl AlphaTypes {}

/// Same name as in another namespace.
#[derive(Zod)]
#[zod(namespace = "AlphaTypes")]
#[allow(dead_code)]
pub struct OtherItem2 {
    bad: Option<Bad>,
}

pub mod renamed {
    use super::*;
    #[derive(Zod, serde::Deserialize)]
    #[zod(namespace = "AlphaTypes")]
    #[serde(rename = "Bad")]
    #[allow(dead_code)]
    pub struct SameName {
        pub a: Option<bool>,
    }
}

#[derive(zod::rpc::Backend)]
pub struct Main {
    types: Types,
    raw: Raw,
    alpha: Alpha,
    gamma: Gamma,
    empty: Empty,
    beta: Beta,
    r#type: Calls,
}

#[derive(zod::rpc::Backend)]
pub struct Pair(Other, AlphaTypes, Alpha);

#[derive(zod::rpc::Backend)]
pub struct One {
    beta: Beta,
}

pub fn main_backend() -> Main {
    Main {
        types: Types,
        raw: Raw,
        alpha: Alpha(Alpha::UNRELATED as u64),
        gamma: Gamma,
        empty: Empty,
        beta: Beta,
        r#type: Calls,
    }
}

