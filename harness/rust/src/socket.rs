//! One WasmSocket, its caller and its handlers, and a peer that is the script.
use super::*;
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};

/// Answers as the specification says: the first byte of the data decides.
struct Handlers(Arc<Mutex<Vec<(Bytes, Bytes)>>>, Arc<Mutex<Vec<Flux<Payload, PayloadError>>>>);

fn parts(p: &Payload) -> (Bytes, Bytes) {
  (p.metadata.clone().unwrap_or_default(), p.data.clone().unwrap_or_default())
}

impl RSocket for Handlers {
  fn fire_and_forget(&self, p: Payload) -> Mono<(), PayloadError> {
    self.0.lock().unwrap().push(parts(&p));
    Mono::new_success(())
  }
  fn request_response(&self, p: Payload) -> Mono<Payload, PayloadError> {
    if parts(&p).1[0] % 2 == 1 {
      return Mono::new_error(PayloadError::application_error("no"));
    }
    Mono::from_future(async move { Ok(p) })
  }
  fn request_stream(&self, p: Payload) -> FluxReceiver<Payload, PayloadError> {
    let (tx, rx) = Flux::new_channels();
    let b = parts(&p).1[0];
    for _ in 0..b % 4 {
      tx.send(p.clone()).unwrap();
    }
    if (64..128).contains(&b) {
      self.1.lock().unwrap().push(tx);
      return rx;
    }
    if b >= 128 {
      tx.error(PayloadError::application_error("no")).unwrap();
    }
    tx.complete();
    rx
  }
  fn request_channel(&self, mut s: FluxReceiver<Payload, PayloadError>) -> FluxReceiver<Payload, PayloadError> {
    let (tx, rx) = Flux::new_channels();
    tokio::spawn(async move {
      while let Some(next) = s.next().await {
        let _ = tx.send_result(next);
      }
      tx.complete();
    });
    rx
  }
}

async fn settle() {
  for _ in 0..60 {
    tokio::task::yield_now().await;
  }
}

type Results = Arc<Mutex<Vec<Value>>>;

fn item(p: Result<Payload, PayloadError>) -> Value {
  match p {
    Ok(p) => {
      let (md, data) = parts(&p);
      json!({"r": "item", "md": md.to_vec(), "data": data.to_vec()})
    }
    Err(e) => json!({"r": "err", "code": [e.code >> 16, e.code & 65535], "msg": e.msg.as_bytes()}),
  }
}

fn collect(mut s: FluxReceiver<Payload, PayloadError>, out: Results) -> tokio::task::JoinHandle<()> {
  tokio::spawn(async move {
    while let Some(next) = s.next().await {
      let r = item(next);
      let last = r["r"] == "err";
      out.lock().unwrap().push(r);
      if last {
        return;
      }
    }
    out.lock().unwrap().push(json!({"r": "end"}));
  })
}

fn literal(v: &Value) -> Value {
  let mut v = v.clone();
  for k in ["md", "data", "msg"] {
    if let Some(r) = v.get(k) {
      v[k] = json!(rope(r).to_vec());
    }
  }
  v
}

async fn play(c: &Value) -> Res {
  let log = Arc::new(Mutex::new(Vec::new()));
  let held: Arc<Mutex<Vec<Flux<Payload, PayloadError>>>> = Default::default();
  let side = if c["side"] == "guest" { SocketSide::Guest } else { SocketSide::Host };
  let mut s = WasmSocket::new(Handlers(log.clone(), held.clone()), side);
  let mut rx = s.take_rx().map_err(|e| format!("{:?}", e))?;
  let mut results: Vec<Results> = Vec::new();
  let mut tasks = Vec::new();
  let mut sources: HashMap<usize, Flux<Payload, PayloadError>> = HashMap::new();
  for a in c["p"].as_array().expect("steps") {
    let load = || Payload::new(rope(&a["md"]), rope(&a["data"]));
    match a["a"].as_str().unwrap() {
      "call" => {
        let out: Results = Default::default();
        tasks.push(match a["k"].as_str().unwrap() {
          "rr" => {
            let (m, out) = (s.request_response(load()), out.clone());
            tokio::spawn(async move {
              let r = item(m.await);
              out.lock().unwrap().push(r);
            })
          }
          "fnf" => {
            let m = s.fire_and_forget(load());
            tokio::spawn(async move {
              let _ = m.await;
            })
          }
          "rs" => collect(s.request_stream(load()), out.clone()),
          _ => {
            let (tx, rx) = Flux::new_channels();
            sources.insert(results.len(), tx);
            collect(s.request_channel(rx), out.clone())
          }
        });
        results.push(out);
      }
      "item" => sources[&(int(&a["s"]) as usize - 1)].send(load()).map_err(|e| format!("{:?}", e))?,
      "leave" => tasks[int(&a["s"]) as usize - 1].abort(),
      "close" => sources[&(int(&a["s"]) as usize - 1)].complete(),
      _ => {
        let b = rope(&a["b"]);
        let f = Frame::decode(b.clone()).map_err(|e| format!("{} is refused: {:?}", short(&b), e))?;
        s.process_once(f).map_err(|e| format!("{} fails: {:?}", short(&b), e))?;
      }
    }
    settle().await;
  }
  let mut sent: HashMap<u32, Vec<Plain>> = HashMap::new();
  let mut cancels: HashSet<u32> = HashSet::new();
  let mut asked: HashMap<u32, u64> = HashMap::new();
  while let Some(Some(f)) = futures::FutureExt::now_or_never(rx.recv()) {
    let f = Frame::decode(f.encode()).map_err(|e| format!("a frame it sends is refused: {:?}", e))?;
    let p = seen(&f);
    if p.t == 9 {
      cancels.insert(p.id);
    } else if p.t == 8 {
      *asked.entry(p.id).or_default() += p.n as u64;
    } else {
      sent.entry(p.id).or_default().push(p);
    }
  }
  let want: HashSet<u32> = c["want"]["cancelled"].as_array().unwrap().iter().map(num).collect();
  if cancels != want {
    return Err(format!("streams {:?} are cancelled, not {:?}", cancels, want));
  }
  let gone: Vec<u32> = c["want"]["gone"].as_array().unwrap().iter().map(num).collect();
  let waiting = held.lock().unwrap().iter().filter(|tx| !tx.is_closed()).count() as u64;
  if waiting != int(&c["want"]["held"]) {
    return Err(format!("{} streams still have someone to go to, not {}", waiting, c["want"]["held"]));
  }
  for w in c["want"]["sent"].as_array().expect("streams") {
    let id = num(&w["id"]);
    let want: Vec<Plain> = w["fs"].as_array().unwrap().iter().map(plain).collect();
    let mut got = sent.remove(&id).unwrap_or_default();
    // What follows the end of a stream means nothing.
    if let Some(n) = got.iter().position(|f| f.t == 11 || f.t == 10 && f.comp) {
      got.truncate(n + 1);
    }
    for (n, g) in got.iter_mut().enumerate() {
      if (g.t == 6 || g.t == 7) && g.n > 0 && n < want.len() {
        g.n = want[n].n; // any demand will do
      }
    }
    // A cancelled answer may be ended once more.
    if gone.contains(&id) && got.len() == want.len() + 1 && got[want.len()].comp && !got[want.len()].next {
      got.pop();
    }
    if got != want {
      return Err(format!("stream {}: sent {:?}, not {:?}", id, got, want));
    }
    if w["asks"] == true && asked.get(&id).copied().unwrap_or(0) == 0 {
      return Err(format!("channel {}: nothing is asked for", id));
    }
  }
  let extra = |id: &u32, fs: &Vec<Plain>| !(gone.contains(id) && fs.iter().all(|f| f.comp && !f.next));
  if let Some((id, fs)) = sent.into_iter().find(|(id, fs)| extra(id, fs)) {
    return Err(format!("stream {}: sent {:?}, not a thing was expected", id, fs));
  }
  for (n, w) in c["want"]["results"].as_array().expect("results").iter().enumerate() {
    let want: Vec<Value> = w.as_array().unwrap().iter().map(literal).collect();
    let got = results[n].lock().unwrap().clone();
    if got != want {
      return Err(format!("call {}: {}, not {}", n + 1, json!(got), json!(want)));
    }
  }
  let want: Vec<(Bytes, Bytes)> = c["want"]["fnf"].as_array().unwrap().iter().map(|p| (rope(&p["md"]), rope(&p["data"]))).collect();
  let got = log.lock().unwrap().clone();
  if got != want {
    return Err(format!("fire and forget: {:?}, not {:?}", got, want));
  }
  Ok(())
}

pub fn run(c: &Value) -> Res {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  rt.block_on(play(c))
}
