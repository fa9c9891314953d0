//! A recording host and a few helpers for the demonstrations.
#![allow(dead_code, clippy::unwrap_used, clippy::expect_used, clippy::panic)]
use crate::configuration::PluginConfiguration;
use crate::data::attribute::{AttributeError, Path};
use crate::filter::DescriptorManager;
use crate::kuadrant::resolver::{AttributeResolver, MapType};
use crate::kuadrant::{Pipeline, PipelineFactory, PipelineState, ReqRespCtx};
use crate::services::ServiceError;
use prost::Message;
use std::collections::{HashMap, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Debug, Clone)]
pub struct Call {
    pub token: u32,
    pub upstream: String,
    pub service: String,
    pub method: String,
    pub headers: Vec<(String, Vec<u8>)>,
    pub message: Vec<u8>,
    pub timeout: Duration,
}

#[derive(Debug, Clone)]
pub struct Reply {
    pub status: u32,
    pub headers: Vec<(String, String)>,
    pub body: Option<Vec<u8>>,
}

#[derive(Default)]
pub struct State {
    pub attrs: HashMap<String, Vec<u8>>,
    pub reads: HashMap<String, usize>,
    pub req_headers: Vec<(String, String)>,
    pub resp_headers: Vec<(String, String)>,
    pub sets: Vec<(String, Vec<u8>)>,
    pub map_sets: Vec<(String, Vec<(String, String)>)>,
    pub calls: Vec<Call>,
    pub replies: Vec<Reply>,
    pub grpc: VecDeque<Vec<u8>>,
    pub grpc_sizes: Vec<usize>,
    pub fail_dispatch: bool,
    pub fail_set_attribute: bool,
    pub fail_set_map: bool,
    pub not_available: Vec<String>,
    pub request_body: Vec<u8>,
    pub response_body: Vec<u8>,
}

#[derive(Default)]
pub struct Host(pub Mutex<State>);

impl Host {
    pub fn new() -> Arc<Host> {
        opentelemetry::global::set_text_map_propagator(
            opentelemetry::propagation::TextMapCompositePropagator::new(vec![
                Box::new(opentelemetry_sdk::propagation::TraceContextPropagator::new()),
                Box::new(opentelemetry_sdk::propagation::BaggagePropagator::new()),
            ]),
        );
        let h = Host::default();
        {
            let mut s = h.0.lock().unwrap();
            s.attrs.insert("request.host".into(), b"example.com".to_vec());
            s.attrs.insert("request.method".into(), b"GET".to_vec());
            s.attrs.insert("request.path".into(), b"/".to_vec());
        }
        Arc::new(h)
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut State) -> R) -> R {
        f(&mut self.0.lock().unwrap())
    }
    pub fn attr(&self, k: &str, v: &[u8]) {
        self.with(|s| s.attrs.insert(k.into(), v.to_vec()));
    }
    pub fn calls(&self) -> Vec<Call> {
        self.with(|s| s.calls.clone())
    }
    pub fn replies(&self) -> Vec<Reply> {
        self.with(|s| s.replies.clone())
    }
    pub fn ctx(self: &Arc<Self>) -> ReqRespCtx {
        ReqRespCtx::new(self.clone())
    }
}

fn own(v: Vec<(&str, &str)>) -> Vec<(String, String)> {
    v.into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

impl AttributeResolver for Host {
    fn get_attribute(&self, path: &Path) -> Result<Option<Vec<u8>>, AttributeError> {
        let mut s = self.0.lock().unwrap();
        let k = path.tokens().join(".");
        *s.reads.entry(k.clone()).or_insert(0) += 1;
        if s.not_available.contains(&k) {
            return Err(AttributeError::NotAvailable(k));
        }
        Ok(s.attrs.get(&k).cloned())
    }
    fn get_attribute_map(&self, m: MapType) -> Result<Vec<(String, String)>, AttributeError> {
        let mut s = self.0.lock().unwrap();
        let k = format!("{m:?}");
        *s.reads.entry(k).or_insert(0) += 1;
        Ok(match m {
            MapType::HttpRequestHeaders => s.req_headers.clone(),
            MapType::HttpResponseHeaders => s.resp_headers.clone(),
        })
    }
    fn get_attribute_map_value(&self, m: MapType, key: &str) -> Result<Option<String>, AttributeError> {
        let s = self.0.lock().unwrap();
        let h = match m {
            MapType::HttpRequestHeaders => &s.req_headers,
            MapType::HttpResponseHeaders => &s.resp_headers,
        };
        Ok(h.iter().find(|(k, _)| k == key).map(|(_, v)| v.clone()))
    }
    fn set_attribute(&self, path: &Path, value: &[u8]) -> Result<(), AttributeError> {
        let mut s = self.0.lock().unwrap();
        if s.fail_set_attribute {
            return Err(AttributeError::Set("refused".into()));
        }
        s.sets.push((path.tokens().join("."), value.to_vec()));
        Ok(())
    }
    fn set_attribute_map(&self, m: MapType, value: Vec<(&str, &str)>) -> Result<(), AttributeError> {
        let mut s = self.0.lock().unwrap();
        if s.fail_set_map {
            return Err(AttributeError::Set("refused".into()));
        }
        let v = own(value);
        s.map_sets.push((format!("{m:?}"), v.clone()));
        match m {
            MapType::HttpRequestHeaders => s.req_headers = v,
            MapType::HttpResponseHeaders => s.resp_headers = v,
        }
        Ok(())
    }
    fn get_http_request_body(&self, start: usize, max: usize) -> Result<Option<Vec<u8>>, AttributeError> {
        let s = self.0.lock().unwrap();
        let b = &s.request_body;
        Ok(Some(b[start.min(b.len())..(start + max).min(b.len())].to_vec()))
    }
    fn get_http_response_body(&self, start: usize, max: usize) -> Result<Option<Vec<u8>>, AttributeError> {
        let s = self.0.lock().unwrap();
        let b = &s.response_body;
        Ok(Some(b[start.min(b.len())..(start + max).min(b.len())].to_vec()))
    }
    fn dispatch_grpc_call(
        &self,
        upstream: &str,
        service: &str,
        method: &str,
        headers: Vec<(&str, &[u8])>,
        message: Vec<u8>,
        timeout: Duration,
    ) -> Result<u32, ServiceError> {
        let mut s = self.0.lock().unwrap();
        if s.fail_dispatch {
            return Err(ServiceError::Dispatch("refused".into()));
        }
        let token = 100 + s.calls.len() as u32;
        s.calls.push(Call {
            token,
            upstream: upstream.into(),
            service: service.into(),
            method: method.into(),
            headers: headers.into_iter().map(|(k, v)| (k.to_string(), v.to_vec())).collect(),
            message,
            timeout,
        });
        Ok(token)
    }
    fn get_grpc_response(&self, size: usize) -> Result<Vec<u8>, ServiceError> {
        let mut s = self.0.lock().unwrap();
        s.grpc_sizes.push(size);
        s.grpc.pop_front().ok_or_else(|| ServiceError::Retrieval("none".into()))
    }
    fn send_http_reply(&self, status: u32, headers: Vec<(&str, &str)>, body: Option<&[u8]>) -> Result<(), ServiceError> {
        let mut s = self.0.lock().unwrap();
        s.replies.push(Reply { status, headers: own(headers), body: body.map(|b| b.to_vec()) });
        Ok(())
    }
}

pub const AUTH: &str = "envoy.service.auth.v3.Authorization";
pub const RL: &str = "envoy.service.ratelimit.v3.RateLimitService";

pub fn factory(cfg: serde_json::Value) -> PipelineFactory {
    let cfg: PluginConfiguration = serde_json::from_value(cfg).expect("config");
    PipelineFactory::try_from(cfg, &Arc::new(DescriptorManager::default())).expect("factory")
}

pub fn services(mode: &str) -> serde_json::Value {
    let mut m = serde_json::Map::new();
    for t in ["auth", "ratelimit", "ratelimit-check", "ratelimit-report"] {
        m.insert(t.into(), serde_json::json!({"type": t, "endpoint": format!("{t}-cluster"), "failureMode": mode, "timeout": "5s"}));
    }
    serde_json::Value::Object(m)
}

/// one action set for example.com with these actions
pub fn config(mode: &str, actions: serde_json::Value) -> serde_json::Value {
    serde_json::json!({
        "services": services(mode),
        "actionSets": [{"name": "set", "routeRuleConditions": {"hostnames": ["example.com"], "predicates": []}, "actions": actions}]
    })
}

pub fn start(host: &Arc<Host>, cfg: serde_json::Value) -> Pipeline {
    factory(cfg).build(host.ctx()).expect("build").expect("pipeline")
}

pub fn in_progress(s: PipelineState) -> Pipeline {
    match s {
        PipelineState::InProgress(p) => *p,
        PipelineState::Completed { .. } => panic!("pipeline completed too early"),
    }
}

pub fn completed(s: PipelineState) -> bool {
    match s {
        PipelineState::InProgress(_) => panic!("pipeline did not complete"),
        PipelineState::Completed { should_resume } => should_resume,
    }
}

pub fn message(service: &str, method: &str, input: bool, fill: impl FnOnce(&mut prost_reflect::DynamicMessage)) -> Vec<u8> {
    let dm = DescriptorManager::default();
    dm.add_expected(crate::filter::DescriptorKey::new("c".into(), service.into()));
    let pool = dm.get_pool("c", service).expect("pool");
    let s = pool.get_service_by_name(service).expect("service");
    let m = s.methods().find(|m| m.name() == method).expect("method");
    let mut d = prost_reflect::DynamicMessage::new(if input { m.input() } else { m.output() });
    fill(&mut d);
    d.encode_to_vec()
}

/// an encoded rate limit response with the given overall code (1 OK, 2 OVER_LIMIT)
pub fn rl_reply(code: i32) -> Vec<u8> {
    message(RL, "ShouldRateLimit", false, |d| {
        d.set_field_by_name("overall_code", prost_reflect::Value::EnumNumber(code));
    })
}

/// decodes the request message of a call
pub fn request_of(call: &Call) -> prost_reflect::DynamicMessage {
    let dm = DescriptorManager::default();
    dm.add_expected(crate::filter::DescriptorKey::new("c".into(), call.service.clone()));
    let pool = dm.get_pool("c", &call.service).expect("pool");
    let s = pool.get_service_by_name(&call.service).expect("service");
    let m = s.methods().find(|m| m.name() == call.method).expect("method");
    prost_reflect::DynamicMessage::decode(m.input(), call.message.as_slice()).expect("request message")
}

pub fn grpc_action(service: &str, predicate: &str, guard: bool, on_reply: serde_json::Value) -> serde_json::Value {
    serde_json::json!({
        "type": "grpc", "predicate": predicate, "terminal": false, "isGuard": guard, "var": "resp", "service": service,
        "messageBuilder": "envoy.service.ratelimit.v3.RateLimitRequest { domain: 'd' }",
        "onReply": on_reply
    })
}
