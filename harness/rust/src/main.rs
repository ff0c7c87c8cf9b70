//! Replays cases of the Frames, Ops and Foreign specifications on the Rust ends.
use bytes::Bytes;
use futures::StreamExt;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use wasmrs::{Frame, Metadata, OperationList, OperationType, Payload, PayloadError, RSocket, SocketSide, WasmSocket};
use wasmrs_rx::*;

mod socket;

type Res = Result<(), String>;

fn int(v: &Value) -> u64 {
  v.as_u64().expect("a number")
}
pub fn num(v: &Value) -> u32 {
  ((int(&v[0]) << 16) | int(&v[1])) as u32
}

/// The bytes of a rope of the specification.
pub fn rope(v: &Value) -> Bytes {
  let mut b = Vec::new();
  for s in v.as_array().expect("a rope") {
    let (n, x) = (int(&s[0]), int(&s[1]));
    if n == 0 {
      b.push(x as u8);
    }
    for i in 0..n {
      b.push((((x + i + 1) as u32).wrapping_mul(2654435761) >> 24) as u8);
    }
  }
  b.into()
}

/// A frame as it can be compared.
#[derive(PartialEq, Debug, Clone)]
pub struct Plain {
  pub t: u64,
  pub id: u32,
  pub next: bool,
  pub comp: bool,
  pub foll: bool,
  pub n: u32,
  pub md: Bytes,
  pub data: Bytes,
}

pub fn plain(f: &Value) -> Plain {
  Plain {
    t: int(&f["type"]),
    id: num(&f["id"]),
    next: f["next"] == true,
    comp: f["comp"] == true,
    foll: f["foll"] == true,
    n: num(&f["n"]),
    md: rope(&f["md"]),
    data: rope(&f["data"]),
  }
}

pub fn seen(f: &Frame) -> Plain {
  let mut p = Plain { t: 0, id: f.stream_id(), next: false, comp: false, foll: false, n: 0, md: Bytes::new(), data: Bytes::new() };
  match f {
    Frame::RequestResponse(r) => {
      (p.t, p.foll, p.md, p.data) = (4, r.0.follows, r.0.metadata.clone(), r.0.data.clone());
    }
    Frame::RequestFnF(r) => {
      (p.t, p.foll, p.md, p.data) = (5, r.0.follows, r.0.metadata.clone(), r.0.data.clone());
    }
    Frame::RequestStream(r) => {
      (p.t, p.foll, p.n, p.md, p.data) = (6, r.0.follows, r.0.initial_n, r.0.metadata.clone(), r.0.data.clone());
    }
    Frame::RequestChannel(r) => {
      (p.t, p.foll, p.n, p.md, p.data) = (7, r.0.follows, r.0.initial_n, r.0.metadata.clone(), r.0.data.clone());
      p.comp = r.0.complete;
    }
    Frame::RequestN(r) => (p.t, p.n) = (8, r.n),
    Frame::Cancel(_) => p.t = 9,
    Frame::PayloadFrame(r) => {
      (p.t, p.next, p.comp, p.foll) = (10, r.next, r.complete, r.follows);
      (p.md, p.data) = (r.metadata.clone(), r.data.clone());
    }
    Frame::ErrorFrame(r) => (p.t, p.n, p.data) = (11, r.code, r.data.clone().into_bytes().into()),
  }
  p
}

fn short(b: &[u8]) -> String {
  format!("{} bytes {:?}", b.len(), &b[..b.len().min(60)])
}
fn same(what: &str, got: &[u8], want: &[u8]) -> Res {
  if got == want {
    return Ok(());
  }
  let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
  Err(format!("{}: {}; the layout says {} (they differ at byte {})", what, short(got), short(want), at))
}

fn part(b: &Bytes, some: bool) -> Option<Bytes> {
  if b.is_empty() && !some {
    None
  } else {
    Some(b.clone())
  }
}

/// The frame by its constructor. What a stream asks for at first is not an argument.
fn made(p: &Plain, some: bool) -> Frame {
  let load = Payload::new_data(part(&p.md, some), part(&p.data, some));
  let flags = 32 * p.next as u16 + 64 * p.comp as u16 + 128 * p.foll as u16;
  match p.t {
    4 => Frame::new_request_response(p.id, load, flags),
    5 => Frame::new_request_fnf(p.id, load, flags),
    6 => Frame::new_request_stream(p.id, load, flags),
    7 => Frame::new_request_channel(p.id, load, flags, p.n),
    8 => Frame::new_request_n(p.id, p.n, 0),
    9 => Frame::new_cancel(p.id),
    10 => Frame::new_payload(p.id, load, flags),
    _ => Frame::new_error(p.id, p.n, String::from_utf8(p.data.to_vec()).expect("text")),
  }
}

fn frame(c: &Value) -> Res {
  let (p, want) = (plain(&c["f"]), rope(&c["want"]["bytes"]));
  let f = Frame::decode(want.clone()).map_err(|e| format!("{} is refused: {:?}", short(&want), e))?;
  let s = seen(&f);
  if s != p {
    return Err(format!("{} is read as {:?}, not {:?}", short(&want), s, p));
  }
  if (4..=7).contains(&p.t) && p.foll {
    return Ok(()); // these ends never write parts of requests
  }
  same("read and written again", &f.encode(), &want)?;
  for some in [false, true] {
    let mut b = made(&p, some).encode().to_vec();
    if p.t == 6 && b.len() >= 10 {
      b[6..10].copy_from_slice(&p.n.to_be_bytes());
    }
    same("a new frame", &b, &want)?;
  }
  Ok(())
}

/// Frames one after the other, each with its length in front.
fn stream(c: &Value) -> Res {
  let want: Vec<Bytes> = c["fs"].as_array().expect("frames").iter().map(rope).collect();
  let mut b = Vec::new();
  for w in &want {
    b.extend_from_slice(&wasmrs::util::to_u24_bytes(w.len() as u32));
    b.extend_from_slice(w);
  }
  same("the stream", &b, &rope(&c["want"]["q"]))?;
  let mut rest = &b[..];
  for w in &want {
    let f = wasmrs::util::read_frame(&mut rest).map_err(|e| e.to_string())?;
    same("a frame of the stream", &f, w)?;
  }
  match wasmrs::util::read_frame(&mut rest) {
    Ok(f) => Err(format!("one more frame: {}", short(&f))),
    Err(_) => Ok(()),
  }
}

fn metadata(c: &Value) -> Res {
  let (i, want) = (num(&c["i"]), rope(&c["want"]["q"]));
  same("metadata", &Metadata::new(i).encode(), &want)?;
  let more: Vec<u8> = want.iter().copied().chain(rope(&c["more"])).collect();
  let m = Payload::new(more.into(), Bytes::new()).parse_metadata().map_err(|e| format!("{:?}", e))?;
  if m.index != i {
    return Err(format!("operation {} is read as {}", i, m.index));
  }
  let bits = Bytes::copy_from_slice(&want[..int(&c["cut"]) as usize]);
  if Payload::new(bits, Bytes::new()).parse_metadata().is_ok() {
    return Err("metadata of less than four bytes is read".to_owned());
  }
  match Payload::empty().parse_metadata() {
    Ok(_) => Err("metadata that is not there is read".to_owned()),
    Err(_) => Ok(()),
  }
}

fn text(v: &Value) -> String {
  String::from_utf8(rope(v).to_vec()).expect("a name")
}

fn table(c: &Value) -> Res {
  let mut l = OperationList::default();
  for o in c["ops"].as_array().expect("operations") {
    let kind = match int(&o["t"]) {
      1 => OperationType::RequestResponse,
      2 => OperationType::RequestFnF,
      3 => OperationType::RequestStream,
      _ => OperationType::RequestChannel,
    };
    if o["d"] == 1 {
      l.add_export(num(&o["i"]), kind, text(&o["ns"]), text(&o["op"]));
    } else {
      l.add_import(num(&o["i"]), kind, text(&o["ns"]), text(&o["op"]));
    }
  }
  let canon = rope(&c["want"]["canon"]);
  same("the table", &l.encode(), &canon)?;
  let q = rope(&c["want"]["q"]);
  let r = OperationList::decode(q.clone()).map_err(|e| format!("{} is refused: {:?}", short(&q), e))?;
  same("the table, read and written again", &r.encode(), &canon)?;
  for (w, a) in c["want"]["find"].as_array().expect("answers").iter().zip(c["ask"].as_array().expect("names")) {
    let (ns, op) = (text(&a["ns"]), text(&a["op"]));
    let want = w.as_array().expect("an index");
    let want = if want.is_empty() { None } else { Some(num(w)) };
    for (from, l) in [("registered", &l), ("read", &r)] {
      let got = if a["d"] == 1 { l.get_export(&ns, &op) } else { l.get_import(&ns, &op) };
      if got != want {
        return Err(format!("{} {:?}/{:?} of the {} table is {:?}, not {:?}", if a["d"] == 1 { "export" } else { "import" }, ns, op, from, got, want));
      }
    }
  }
  Ok(())
}

/// Any bytes: what the layout says they are, or refused. Error texts have to be text.
fn bytes(c: &Value) -> Res {
  let b = rope(&c["bs"]);
  let got = Frame::decode(b.clone());
  if c["want"]["ok"] != true {
    return match got {
      Ok(f) => Err(format!("{} is taken for {:?}", short(&b), f)),
      Err(_) => Ok(()),
    };
  }
  let p = plain(&c["want"]["f"]);
  match got {
    Ok(f) if seen(&f) == p => {
      let _ = Payload::new(p.md, p.data).parse_metadata();
      Ok(())
    }
    Ok(f) => Err(format!("{} is read as {:?}, not {:?}", short(&b), seen(&f), p)),
    Err(_) if p.t == 11 && String::from_utf8(p.data.to_vec()).is_err() => Ok(()),
    Err(e) => Err(format!("{} is refused: {:?}", short(&b), e)),
  }
}

/// Any bytes as a list: refused, or what the layout says. Names have to be text.
fn list(c: &Value) -> Res {
  let q: Vec<u8> = c["q"].as_array().expect("bytes").iter().map(|b| int(b) as u8).collect();
  let w = &c["want"];
  let got = OperationList::decode(q.clone().into());
  match (w["s"].as_str().expect("a verdict"), got) {
    ("bad", Ok(l)) => Err(format!("{} is taken for the list {:?}", short(&q), l)),
    ("ok", got) => {
      let names = |k| w["ops"].as_array().unwrap().iter().map(|o| String::from_utf8(rope(&o[k]).to_vec())).collect::<Result<Vec<_>, _>>();
      let (ns, op) = match (names("ns"), names("op")) {
        (Ok(ns), Ok(op)) => (ns, op),
        _ => return Ok(()),
      };
      let l = got.map_err(|e| format!("{} is refused: {:?}", short(&q), e))?;
      for n in 0..ns.len() {
        let e = &w["ops"][n];
        let first = (0..n).all(|m| w["ops"][m]["d"] != e["d"] || ns[m] != ns[n] || op[m] != op[n]);
        let i = if e["d"] == 1 { l.get_export(&ns[n], &op[n]) } else { l.get_import(&ns[n], &op[n]) };
        if i.is_none() || first && i != Some(num(&e["i"])) {
          return Err(format!("{}: operation {} is read as {:?}", short(&q), n, i));
        }
      }
      Ok(())
    }
    _ => Ok(()),
  }
}

fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let input = std::fs::File::open(std::env::var("VERIF_IN").unwrap()).unwrap();
  let mut out = std::fs::OpenOptions::new().append(true).open(std::env::var("VERIF_OUT").unwrap()).unwrap();
  for line in std::io::BufReader::new(input).lines() {
    let c: Value = serde_json::from_str(&line.unwrap()).unwrap();
    writeln!(out, "{}", json!({"start": c["id"]})).unwrap();
    let got = catch_unwind(AssertUnwindSafe(|| match c["op"].as_str().unwrap() {
      "frame" => frame(&c),
      "bytes" => bytes(&c),
      "stream" => stream(&c),
      "metadata" => metadata(&c),
      "foreign" => table(&c),
      "parse" => list(&c),
      "socket" => socket::run(&c),
      o => Err(format!("no case is called {}", o)),
    }));
    let r = match got {
      Ok(Ok(())) => json!({"id": c["id"], "ok": true}),
      Ok(Err(why)) => json!({"id": c["id"], "ok": false, "why": why}),
      Err(p) => {
        let why = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        json!({"id": c["id"], "ok": false, "why": format!("panic: {}", why)})
      }
    };
    writeln!(out, "{}", serde_json::to_string(&r).unwrap()).unwrap();
  }
  writeln!(out, "{}", json!({"end": true})).unwrap();
}
