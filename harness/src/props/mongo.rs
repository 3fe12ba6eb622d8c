//! Enough of a database server for the library's own logger to write to, over the loopback network.
use super::logging::Entry;
use bson::{doc, Document};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Mutex, OnceLock};

/// What was inserted, by database and collection: one list per request.
static STORED: Mutex<Option<HashMap<(String, String), Vec<Vec<Document>>>>> = Mutex::new(None);
static CREATED: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
static PORT: OnceLock<u16> = OnceLock::new();

pub fn port() -> u16 {
    *PORT.get_or_init(|| {
        let l = TcpListener::bind("127.0.0.1:0").expect("the loopback network");
        let port = l.local_addr().unwrap().port();
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                std::thread::spawn(move || {
                    let _ = serve(s);
                });
            }
        });
        port
    })
}

fn int(b: &[u8]) -> usize {
    i32::from_le_bytes(b[..4].try_into().unwrap()) as usize
}

fn reply(s: &mut TcpStream, request: i32, legacy: bool, body: &Document) -> std::io::Result<()> {
    let b = bson::to_vec(body).unwrap();
    let mut p = vec![];
    if legacy {
        p.extend(8i32.to_le_bytes());
        p.extend([0; 12]);
        p.extend(1i32.to_le_bytes());
    } else {
        p.extend([0; 5]);
    }
    p.extend(&b);
    let mut h = vec![];
    h.extend(((p.len() + 16) as i32).to_le_bytes());
    h.extend(1i32.to_le_bytes());
    h.extend(request.to_le_bytes());
    h.extend(if legacy { 1i32 } else { 2013 }.to_le_bytes());
    h.extend(p);
    s.write_all(&h)
}

fn serve(mut s: TcpStream) -> std::io::Result<()> {
    let _ = s.set_nodelay(true);
    let hello = doc! {
        "ismaster": true, "helloOk": true, "maxBsonObjectSize": 16_777_216, "maxMessageSizeBytes": 48_000_000,
        "maxWriteBatchSize": 100_000, "minWireVersion": 0, "maxWireVersion": 13, "ok": 1.0,
    };
    loop {
        let mut h = [0u8; 16];
        s.read_exact(&mut h)?;
        let id = int(&h[4..]) as i32;
        let mut b = vec![0; int(&h) - 16];
        s.read_exact(&mut b)?;
        if int(&h[12..]) == 2004 {
            reply(&mut s, id, true, &hello)?;
            continue;
        }
        let mut rest = &b[4..];
        let mut command = Document::new();
        let mut docs: Vec<Document> = vec![];
        while rest.len() > 4 {
            let kind = rest[0];
            let len = int(&rest[1..]);
            let body = &rest[1..1 + len];
            rest = &rest[1 + len..];
            if kind == 0 {
                command = bson::from_slice(body).unwrap();
                continue;
            }
            let name_end = 4 + body[4..].iter().position(|x| *x == 0).unwrap();
            let mut list = &body[name_end + 1..];
            while !list.is_empty() {
                let n = int(list);
                docs.push(bson::from_slice(&list[..n]).unwrap());
                list = &list[n..];
            }
        }
        let name = command.keys().next().cloned().unwrap_or_default();
        let target = || (command.get_str("$db").unwrap().to_string(), command.get_str(&name).unwrap().to_string());
        match name.as_str() {
            "isMaster" | "ismaster" | "hello" => reply(&mut s, id, false, &hello)?,
            "create" => {
                CREATED.lock().unwrap().push(target());
                reply(&mut s, id, false, &doc! {"ok": 1.0})?;
            }
            "insert" => {
                if let Ok(list) = command.get_array("documents") {
                    docs.extend(list.iter().map(|d| d.as_document().unwrap().clone()));
                }
                let n = docs.len() as i32;
                STORED.lock().unwrap().get_or_insert_with(Default::default).entry(target()).or_default().push(docs);
                reply(&mut s, id, false, &doc! {"n": n, "ok": 1.0})?;
            }
            _ => reply(&mut s, id, false, &doc! {"ok": 1.0})?,
        }
    }
}

/// All entries of a collection by context, and whether their order is beyond doubt: requests may overtake each other.
pub fn take(target: &(String, String)) -> HashMap<usize, (Vec<Entry>, bool)> {
    let requests = STORED.lock().unwrap().get_or_insert_with(Default::default).remove(target).unwrap_or_default();
    let mut by: HashMap<usize, Vec<Vec<Entry>>> = HashMap::new();
    for r in requests {
        let mut here: HashMap<usize, Vec<Entry>> = HashMap::new();
        for d in r {
            let e: Entry = bson::from_document(d).expect("an entry keeps its fields");
            here.entry(e.context).or_default().push(e);
        }
        for (k, v) in here {
            by.entry(k).or_default().push(v);
        }
    }
    by.into_iter()
        .map(|(k, mut lists)| {
            lists.sort_by_key(|l| (l[0].timestamp, l[l.len() - 1].timestamp));
            let sure = lists.windows(2).all(|w| w[0][w[0].len() - 1].timestamp < w[1][0].timestamp);
            (k, (lists.concat(), sure))
        })
        .collect()
}

pub fn created(target: &(String, String)) -> usize {
    CREATED.lock().unwrap().iter().filter(|c| *c == target).count()
}
