//! Drives the real backend code: a script of operations on stdin, observations on stdout.
#![allow(dead_code, unused)]
mod api;
mod names;
use std::collections::{BTreeMap, HashMap};
use std::task::{Context, Poll};

use api::*;
use futures::channel::mpsc;
use futures::StreamExt;
use serde_json::{json, Value};
use zod::rpc::{Backend, Request, Response, SubscriberMap};
use zod::*;

struct Marker;
impl zod::__private::codegen::ClientCodegen for Marker {
    fn get() -> String {
        "<<client>>".into()
    }
}

fn backend_views<B: Backend>(name: &str) {
    let members: BTreeMap<_, Vec<Value>> = B::zod_namespaces()
        .into_iter()
        .map(|(k, v)| (k, v.into_iter().map(|m| json!([m.namespace(), m.name()])).collect()))
        .collect();
    let rpc: BTreeMap<_, _> = B::rpc_members().into_iter().collect();
    println!(
        "{}",
        json!({"backend": name, "ns_names": B::NS_NAMES, "client": B::generate::<Marker>(),
               "client2": B::generate_with_options::<Marker>(Default::default()),
               "ws_client": B::generate::<zod::rpc::clients::WebsocketClient>(),
               "zod_namespaces": members, "rpc_members": rpc})
    );
}

fn ns_views<N: zod::__private::codegen::RpcNamespace>(name: &str) {
    let rpc: Vec<String> = N::rpc_members().into_iter().map(|m| m.decl()).collect();
    let members: Vec<Value> = N::members().into_iter().map(|m| json!([m.namespace(), m.name()])).collect();
    println!("{}", json!({"namespace": name, "exported": N::NAME, "rpc_members": rpc, "members": members}));
}

fn ty<T: ZodType>(name: &str) {
    println!("{}", json!({"ty": name, "inline_schema": T::inline_schema(), "inline": T::inline().to_string(), "type_def": T::type_def().to_string()}));
}

fn views() {
    ty::<u32>("u32");
    ty::<u8>("u8");
    ty::<i32>("i32");
    ty::<bool>("bool");
    ty::<()>("()");
    ty::<String>("String");
    ty::<Option<u32>>("Option<u32>");
    ty::<Option<String>>("Option<String>");
    ty::<Result<String, u8>>("Result<String, u8>");
    ty::<(u8, u8, u8)>("(u8, u8, u8)");
    ty::<Vec<i32>>("Vec<i32>");
    ty::<Vec<u8>>("Vec<u8>");
    ty::<Vec<(u8, String)>>("Vec<(u8, String)>");
    ty::<(bool,)>("(bool,)");
    ty::<Option<Vec<u8>>>("Option<Vec<u8>>");
    ty::<Bad>("Bad");
    ty::<BetaItem>("BetaItem");
    for m in zod::__private::inventory::iter::<zod::NamespaceMemberDefinition> {
        println!(
            "{}",
            json!({"member": m.name(), "ns": m.namespace(), "schema": m.schema(), "type": m.type_def().to_string(),
                   "interface": matches!(m.type_def(), zod::TsTypeDef::Interface(_))})
        );
    }
    for m in zod::__private::inventory::iter::<zod::__private::codegen::RpcMember> {
        use zod::__private::codegen::RpcMember;
        let (kind, ns, name, nargs, res) = match m {
            RpcMember::Method { ns_name, name, args, res } => ("method", ns_name, name, args().len(), res()),
            RpcMember::Stream { ns_name, name, args, res } => ("stream", ns_name, name, args().len(), res()),
        };
        println!("{}", json!({"rpc": m.ns_name(), "decl": m.decl(), "kind": kind, "ns_name": ns, "name": name, "nargs": nargs, "res": res}));
    }
    let jerr = || serde_json::from_str::<u8>("x").unwrap_err();
    for (n, r) in [
        ("method", Response::method(5, json!({"a": [1, null]}))),
        ("method0", Response::method(0, ())),
        ("method_bad", Response::method(6, Bad { value: 100 })),
        ("stream", Response::stream(7, "x")),
        ("stream_big", Response::stream(usize::MAX, vec![Some(1), None])),
        ("stream_bad", Response::stream(8, Bad { value: 101 })),
        ("error", Response::error(9, jerr())),
        ("error_none", Response::error(None, jerr())),
    ] {
        println!("{}", json!({"response": n, "json": serde_json::to_string(&r).unwrap(), "text": jerr().to_string()}));
    }
    let collected: BTreeMap<_, Vec<Value>> = zod::NamespaceMemberDefinition::collect()
        .into_iter()
        .map(|(k, v)| (k, v.into_iter().map(|m| json!([m.namespace(), m.name()])).collect()))
        .collect();
    println!("{}", json!({"collected": collected}));
    ns_views::<Alpha>("Alpha");
    ns_views::<Beta>("Beta");
    ns_views::<Gamma>("Gamma");
    ns_views::<Raw>("Raw");
    ns_views::<Types>("Types");
    ns_views::<Empty>("Empty");
    ns_views::<Calls>("Calls");
    ns_views::<Other>("Other");
    ns_views::<OTHER>("OTHER");
    ns_views::<AlphaTypes>("AlphaTypes");
    backend_views::<Main>("Main");
    backend_views::<Pair>("Pair");
    backend_views::<One>("One");
    ns_views::<names::NamesM>("NamesM");
    ns_views::<names::NamesS>("NamesS");
    backend_views::<names::Names>("Names");
}

struct Client {
    map: Option<SubscriberMap>,
    tx: Option<mpsc::UnboundedSender<Response>>,
    rx: Option<mpsc::UnboundedReceiver<Response>>,
    ptx: Option<zod::rpc::servers::proxy::ProxyTx>,
    prx: Option<zod::rpc::servers::proxy::ProxyRx>,
}

fn num(op: &Value, k: &str) -> u32 {
    op[k].as_u64().unwrap_or(0) as u32
}

fn common(op: &Value) -> bool {
    let key = num(op, "tap");
    match op["op"].as_str().unwrap() {
        "push" => {
            if let Some(Some(tx)) = TAPS.lock().unwrap().get(&key) {
                let _ = tx.unbounded_send(num(op, "v"));
            }
        }
        "end" => {
            TAPS.lock().unwrap().insert(key, None);
        }
        "open" => {
            if let Some(tx) = GATES.lock().unwrap().remove(&num(op, "gate")) {
                let _ = tx.send(());
            }
        }
        _ => return false,
    }
    true
}

fn observe(clients: &mut BTreeMap<u32, Client>) {
    let mut resp = BTreeMap::new();
    for (c, cl) in clients.iter_mut() {
        let mut out = Vec::new();
        let mut ended = false;
        let w = futures::task::noop_waker();
        let mut cx = Context::from_waker(&w);
        if let Some(rx) = cl.rx.as_mut() {
            while let Poll::Ready(Some(x)) = rx.poll_next_unpin(&mut cx) {
                out.push(serde_json::to_value(&x).unwrap());
            }
        }
        if let Some(rx) = cl.prx.as_mut() {
            loop {
                match rx.poll_next_unpin(&mut cx) {
                    Poll::Ready(Some(x)) => out.push(serde_json::to_value(&x).unwrap()),
                    Poll::Ready(None) => {
                        ended = true;
                        break;
                    }
                    Poll::Pending => break,
                }
            }
        }
        resp.insert(c.to_string(), json!({"got": out, "ended": ended,
            "subs": cl.map.as_ref().map(|m| { let mut v: Vec<_> = m.keys().copied().collect(); v.sort(); v })}));
    }
    println!(
        "{}",
        json!({"log": std::mem::take(&mut *LOG.lock().unwrap()), "clients": resp,
               "dropped": std::mem::take(&mut *DROPPED.lock().unwrap())})
    );
}

async fn settle() {
    for _ in 0..400 {
        tokio::task::yield_now().await;
    }
}

async fn direct(script: Vec<Value>) {
    let mut backend = main_backend();
    let mut clients: BTreeMap<u32, Client> = BTreeMap::new();
    for op in script {
        if common(&op) {
            continue;
        }
        let c = num(&op, "c");
        match op["op"].as_str().unwrap() {
            "connect" => {
                let (tx, rx) = mpsc::unbounded();
                clients.insert(c, Client { map: Some(Default::default()), tx: Some(tx), rx: Some(rx), ptx: None, prx: None });
            }
            "req" => {
                let cl = clients.get_mut(&c).unwrap();
                match serde_json::from_str::<Request>(op["text"].as_str().unwrap()) {
                    Ok(req) => {
                        if let (Some(tx), Some(map)) = (cl.tx.as_ref(), cl.map.as_mut()) {
                            backend.handle_request(req, tx.clone(), map).await;
                        }
                    }
                    Err(e) => {
                        if let Some(tx) = cl.tx.as_ref() {
                            let _ = tx.unbounded_send(Response::Error { id: None, data: e.into() });
                        }
                    }
                }
            }
            "drop_rx" => clients.get_mut(&c).unwrap().rx = None,
            "drop_map" => {
                let cl = clients.get_mut(&c).unwrap();
                cl.map = None;
                cl.tx = None;
            }
            "close" => {
                clients.remove(&c);
            }
            "settle" => settle().await,
            "observe" => observe(&mut clients),
            x => panic!("unknown operation {x}"),
        }
    }
}

async fn proxied(script: Vec<Value>) {
    let proxy = zod::rpc::servers::proxy::BackendProxy::new(main_backend());
    let second = proxy.clone();
    let mut clients: BTreeMap<u32, Client> = BTreeMap::new();
    for op in script {
        if common(&op) {
            continue;
        }
        let c = num(&op, "c");
        match op["op"].as_str().unwrap() {
            "connect" => {
                let con = if c % 2 == 0 { proxy.connect() } else { second.connect() };
                let (ptx, prx) = con.split();
                clients.insert(c, Client { map: None, tx: None, rx: None, ptx: Some(ptx), prx: Some(prx) });
            }
            "req" => {
                let cl = clients.get_mut(&c).unwrap();
                let req = serde_json::from_str::<Request>(op["text"].as_str().unwrap())
                    .map_err(|e| Response::Error { id: None, data: e.into() });
                if let Some(tx) = cl.ptx.as_ref() {
                    if tx.send(req).is_err() {
                        println!("{}", json!({"disconnected": c}));
                    }
                }
            }
            "drop_rx" => clients.get_mut(&c).unwrap().prx = None,
            "drop_tx" => clients.get_mut(&c).unwrap().ptx = None,
            "close" => {
                clients.remove(&c);
            }
            "settle" => settle().await,
            "observe" => observe(&mut clients),
            x => panic!("unknown operation {x}"),
        }
    }
}

async fn serve() {
    use std::io::BufRead;
    let proxy = zod::rpc::servers::proxy::BackendProxy::new(main_backend());
    let app = axum::Router::new()
        .route("/ws", axum::routing::get(zod::rpc::servers::axum::websocket_handler))
        .layer(axum::Extension(proxy));
    let server = axum::Server::bind(&"127.0.0.1:0".parse().unwrap()).serve(app.into_make_service());
    println!("{}", json!({"port": server.local_addr().port()}));
    std::thread::spawn(|| {
        for line in std::io::stdin().lock().lines() {
            let Ok(line) = line else { break };
            let op: Value = serde_json::from_str(&line).unwrap();
            if !common(&op) {
                observe(&mut BTreeMap::new());
            }
        }
        std::process::exit(0);
    });
    server.await.unwrap();
}

fn parse(script: Vec<Value>) {
    for op in script {
        let r = serde_json::from_str::<Request>(op["text"].as_str().unwrap());
        println!(
            "{}",
            match r {
                Ok(Request::Exec { id, value }) => json!({"exec": id, "value": value}),
                Ok(Request::CancelStream { id }) => json!({"cancel": id}),
                Err(_) => json!({"error": true}),
            }
        );
    }
}

fn main() {
    let mode = std::env::args().nth(1).unwrap();
    if mode == "views" {
        return views();
    }
    let rt = |multi: bool| {
        let mut b = if multi { tokio::runtime::Builder::new_multi_thread() } else { tokio::runtime::Builder::new_current_thread() };
        b.enable_all().build().unwrap()
    };
    if mode == "serve" {
        return rt(true).block_on(serve());
    }
    // one script after the other, each in a process state of its own
    let text = std::io::read_to_string(std::io::stdin()).unwrap();
    for line in text.lines() {
        let script: Vec<Value> = serde_json::from_str(line).unwrap();
        LOG.lock().unwrap().clear();
        DROPPED.lock().unwrap().clear();
        TAPS.lock().unwrap().clear();
        GATES.lock().unwrap().clear();
        let r = std::panic::catch_unwind(|| match mode.as_str() {
            "direct" => rt(false).block_on(direct(script)),
            "proxied" => rt(false).block_on(proxied(script)),
            "parse" => parse(script),
            _ => panic!("unknown mode"),
        });
        println!("{}", json!({"done": r.is_ok()}));
    }
    let _ = HashMap::<u8, u8>::new();
}
