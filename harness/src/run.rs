//! Running scenarios on the real code and recording what happens.

use std::cell::RefCell;
use std::error::Error;
use std::fmt::{self, Display, Formatter};
use std::fs;
use std::io::{self, Cursor};
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

use amplify::ByteArray;
use rgbcore::{ContractVerify, OperationSeals, ReadOperation, RgbSeal, VerificationError};
use serde_json::{json, Value};
use single_use_seals::{PublishedWitness, SealError};
use strict_encoding::{DecodeError, StrictDecode, StrictReader};
use ultrasonic::{CallError, Operation, Opid};

use crate::ledger::*;
use crate::proto::{Proto, WidOf};
use crate::scen::{File, Item, Step, END, FAIL};
use crate::world::*;

/// Failure to read the item with this number.
#[derive(Debug)]
pub struct ReadFailure(pub usize);
impl Display for ReadFailure {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "injected failure of read {}", self.0) }
}
impl Error for ReadFailure {}

struct OverRead;

/// Kinds of failures of a source.
pub trait Failing {
    type Error: Error + 'static;
    fn fail(no: usize, nonce: usize) -> Self::Error;
}

/// A failure of an own kind
pub struct Own;
impl Failing for Own {
    type Error = ReadFailure;
    fn fail(no: usize, _: usize) -> ReadFailure { ReadFailure(no) }
}

/// A failure of the medium
pub struct Medium;
impl Failing for Medium {
    type Error = io::Error;
    fn fail(no: usize, nonce: usize) -> io::Error {
        use io::ErrorKind::*;
        let kinds = [UnexpectedEof, Interrupted, WouldBlock, TimedOut, InvalidData, NotFound, BrokenPipe, Other, WriteZero];
        io::Error::new(kinds[nonce % kinds.len()], ReadFailure(no))
    }
}

/// A failure to decode
pub struct Encoding;
impl Failing for Encoding {
    type Error = DecodeError;
    fn fail(no: usize, nonce: usize) -> DecodeError {
        let text = ReadFailure(no).to_string();
        match nonce % 2 {
            0 => DecodeError::DataIntegrityError(text),
            _ => DecodeError::DataIntegrityError(format!("unexpected end of stream: {text} (EOF)")),
        }
    }
}

struct Reader<P: Proto, F> {
    items: std::vec::IntoIter<(Item, Option<OperationSeals<P::Seal>>)>,
    log: Rc<RefCell<Log>>,
    nonce: usize,
    failing: PhantomData<F>,
}

impl<P: Proto, F: Failing> ReadOperation for Reader<P, F> {
    type Seal = P::Seal;
    fn read_operation(&mut self) -> Result<Option<OperationSeals<P::Seal>>, impl Error + 'static> {
        let mut log = self.log.borrow_mut();
        match self.items.next() {
            Some((FAIL, _)) => {
                let no = log.items.len();
                log.items.push(ReadItem { t: "fail", b: 0, fx: vec![] });
                Err(F::fail(no, self.nonce))
            }
            Some((END, _)) => {
                log.items.push(ReadItem { t: "end", b: 0, fx: vec![] });
                Ok(None)
            }
            Some((b, block)) => {
                log.items.push(ReadItem { t: "b", b: b as usize, fx: vec![] });
                Ok(block)
            }
            None => {
                log.over += 1;
                if log.over > 64 {
                    drop(log);
                    resume_unwind(Box::new(OverRead));
                }
                Ok(None)
            }
        }
    }
}

/// Which read failed, according to an error which is really the one the source gave.
fn failure(err: &(dyn Error + 'static)) -> Option<usize> {
    if err.is::<ReadFailure>() || err.is::<io::Error>() || err.is::<DecodeError>() {
        let text = err.to_string();
        let (_, no) = text.rsplit_once("injected failure of read ")?;
        return no.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok();
    }
    None
}

pub fn n_err<P: Proto>(env: &Env, e: &VerificationError<P::Seal>) -> Value {
    let text = e.to_string();
    let said = |parts: &[String]| parts.iter().all(|p| text.contains(p.as_str()));
    match e {
        VerificationError::Stream(err) => json!({
            "k": "Stream",
            "at": failure(err.as_ref()).map(|no| no as i64).unwrap_or(-1),
            "said": said(&[err.to_string()]),
        }),
        VerificationError::NoCodexCommitment => json!({"k": "NoCodex", "said": true}),
        VerificationError::NoWitness(opid) => json!({"k": "NoWitness", "op": n_op(opid), "said": said(&[opid.to_string()])}),
        VerificationError::SealsNotClosed(wid, opid, err) => {
            let mut v = json!({
                "k": "BadCommitment",
                "op": n_op(opid),
                "w": n_tx(&P::wid(wid)),
                "said": said(&[opid.to_string(), wid.to_string()]),
            });
            if let SealError::NotIncluded(seal, w2) = err {
                v["k"] = "NotIncluded".into();
                v["seal"] = n_seal::<P>(seal);
                v["w2"] = n_tx(&P::wid(&wid_of::<P>(*w2))).into();
                v["said"] = said(&[opid.to_string(), wid.to_string(), seal.to_string()]).into();
            }
            v
        }
        VerificationError::SealUnknown(addr) => json!({"k": "SealUnknown", "addr": n_addr(addr), "said": said(&[addr.to_string()])}),
        VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources } => json!({
            "k": "Mismatch",
            "op": n_op(opid),
            "reported": reported.iter().map(n_tok).collect::<Vec<_>>(),
            "defined": defined.iter().map(n_tok).collect::<Vec<_>>(),
            "sources": sources.iter().map(|(p, s)| json!([p, s])).collect::<Vec<_>>(),
            "said": said(&[opid.to_string()]) && said(&sources.values().cloned().collect::<Vec<_>>()),
        }),
        VerificationError::Vm(err) => match err {
            CallError::WrongContract { expected, found } => json!({
                "k": "WrongContract",
                "exp": n_cid(env, &expected.to_byte_array()),
                "found": n_cid(env, &found.to_byte_array()),
                "said": true,
            }),
            CallError::NoReadOnceInput(a) => json!({"k": "NoReadOnce", "addr": n_addr(a), "said": said(&[a.to_string()])}),
            CallError::NoImmutableInput(a) => json!({"k": "NoImmutable", "addr": n_addr(a), "said": said(&[a.to_string()])}),
            CallError::NotFound(_) => json!({"k": "NotFound", "said": true}),
            CallError::Script(_) | CallError::ScriptUnspecified => json!({"k": "Script", "said": true}),
            CallError::Lock(_) => json!({"k": "Lock", "said": true}),
        },
    }
}

fn wid_of<P: Proto>(w: <<P::Seal as RgbSeal>::Published as PublishedWitness<P::Seal>>::PubId) -> WidOf<P> { w }

pub fn n_cid(env: &Env, id: &[u8; 32]) -> String {
    if *id == env.contract_id.to_byte_array() {
        "own".into()
    } else if *id == env.codex_id.to_byte_array() {
        "codex".into()
    } else {
        "other".into()
    }
}

/// The way a block takes from the scenario to the stream.
pub fn transport<P: Proto>(tp: &str, b: &Block<P>) -> Result<Block<P>, String> {
    match tp {
        "direct" => Ok(clone_block::<P>(b)),
        "clone" => Ok(b.clone()),
        "strict" => {
            let bytes = strict(b);
            let mut reader = StrictReader::in_memory::<MAX>(bytes);
            let res = Block::<P>::strict_decode(&mut reader).map_err(|e| e.to_string())?;
            let cursor: Cursor<_> = reader.unbox().unconfine();
            if cursor.position() as usize != cursor.get_ref().len() {
                return Err("data left after decoding".into());
            }
            Ok(res)
        }
        "json" => {
            let s = serde_json::to_string(b).map_err(|e| e.to_string())?;
            serde_json::from_str(&s).map_err(|e| e.to_string())
        }
        "value" => {
            let s = serde_json::to_value(b).map_err(|e| e.to_string())?;
            serde_json::from_value(s).map_err(|e| e.to_string())
        }
        _ => panic!("transport {tp}"),
    }
}

pub const TRANSPORTS: [&str; 4] = ["clone", "strict", "json", "value"];

/// How the block survives each transport; and the layout of its strict encoding.
fn round_trips<P: Proto>(b: &Block<P>) -> Value {
    let orig = parts::<P>(b);
    let mut res = serde_json::Map::new();
    for tp in TRANSPORTS {
        let out = catch_unwind(AssertUnwindSafe(|| transport::<P>(tp, b)));
        let verdict = match out {
            Err(_) => "panic".to_string(),
            Ok(Err(_)) => "fails".to_string(),
            Ok(Ok(b2)) if parts::<P>(&b2) != orig => "differs".to_string(),
            Ok(Ok(_)) => "same".to_string(),
        };
        res.insert(tp.into(), verdict.into());
    }
    let mut whole = strict(&b.operation);
    whole.extend(strict(&b.defined_seals));
    match &b.witness {
        None => whole.push(0),
        Some(w) => {
            whole.push(1);
            whole.extend(strict(&w.published));
            whole.extend(strict(&w.client));
        }
    }
    let layout = catch_unwind(AssertUnwindSafe(|| strict(b) == whole)).unwrap_or(false);
    res.insert("layout".into(), if layout { "same" } else { "differs" }.into());
    Value::Object(res)
}

// Watchdog ----------------------------------------------------------------------------------------

static BUSY_SINCE: AtomicU64 = AtomicU64::new(0);
fn now() -> u64 { SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() }

fn watchdog(limit: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let since = BUSY_SINCE.load(Ordering::SeqCst);
        if since != 0 && now() > since + limit {
            eprintln!("evaluation does not terminate");
            std::process::exit(42);
        }
    });
}

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(seconds: u32) -> u32;
}

/// Evaluate a stream; returns the record and the new state.
#[allow(clippy::type_complexity)]
fn evaluate<P: Proto>(env: &Env, state: State, items: Vec<(Item, Option<Block<P>>)>, nonce: usize) -> (Value, State) {
    match nonce % 3 {
        0 => evaluate_from::<P, Own>(env, state, items, nonce / 3),
        1 => evaluate_from::<P, Medium>(env, state, items, nonce / 3),
        _ => evaluate_from::<P, Encoding>(env, state, items, nonce / 3),
    }
}

fn evaluate_from<P: Proto, F: Failing>(
    env: &Env,
    state: State,
    items: Vec<(Item, Option<Block<P>>)>,
    nonce: usize,
) -> (Value, State) {
    let log = Rc::new(RefCell::new(Log::default()));
    let reader = Reader::<P, F> { items: items.into_iter(), log: log.clone(), nonce, failing: PhantomData };
    let mut contract = For::<P>(Contract { env, state, log: log.clone() }, PhantomData);
    BUSY_SINCE.store(now(), Ordering::SeqCst);
    let res = catch_unwind(AssertUnwindSafe(|| contract.evaluate(reader)));
    BUSY_SINCE.store(0, Ordering::SeqCst);
    let res = match res {
        Ok(Ok(())) => json!({"k": "ok", "said": true}),
        Ok(Err(e)) => catch_unwind(AssertUnwindSafe(|| n_err::<P>(env, &e))).unwrap_or(json!({"k": "panic", "said": false})),
        Err(e) if e.is::<OverRead>() => json!({"k": "overread", "said": false}),
        Err(_) => json!({"k": "panic", "said": false}),
    };
    let log = log.borrow();
    let rec = json!({
        "pre": log.pre,
        "items": log.items.iter().map(|i| json!({"t": i.t, "b": i.b, "fx": i.fx})).collect::<Vec<_>>(),
        "over": log.over,
        "res": res,
    });
    (rec, contract.0.state)
}

/// The same evaluation in a process of its own in which nothing was evaluated before.
fn evaluate_apart<P: Proto>(env: &Env, state: State, items: Vec<(Item, Option<Block<P>>)>, nonce: usize) -> Value {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0);
        let pid = fork();
        assert!(pid >= 0);
        if pid == 0 {
            alarm(60);
            let (rec, _) = evaluate::<P>(env, state, items, nonce);
            let mut f = fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(&serde_json::to_vec(&rec).unwrap());
            drop(f);
            _exit(0)
        }
        drop(fs::File::from_raw_fd(fds[1]));
        let mut buf = vec![];
        fs::File::from_raw_fd(fds[0]).read_to_end(&mut buf).unwrap();
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        serde_json::from_slice(&buf).unwrap_or(json!({"pre": [], "items": [], "over": 0, "res": {"k": "died", "said": false}}))
    }
}

pub fn run<P: Proto>(file: &File, out: &str, apart: bool, trips: bool) {
    let envs: Vec<Env> = file.unis.iter().map(|u| Env::new(u.salt)).collect();
    watchdog(60);
    if std::env::var("CONFORM_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut blocks: Vec<Value> = vec![];
    let mut gens: Vec<Value> = vec![];
    let mut index: Vec<Vec<usize>> = vec![];
    let mut worlds: Vec<World<P>> = vec![];
    let mut seen = std::collections::HashMap::<([String; 3], u32), usize>::new();
    let mut concrete: Vec<Block<P>> = vec![];
    for (uni, env) in file.unis.iter().zip(&envs) {
        let w = World::<P>::new(env, uni);
        gens.push(abs_op(env, &w.gen));
        let mut idx = vec![];
        for (no, b) in w.blocks.iter().enumerate() {
            let key = (parts::<P>(b), uni.salt);
            let pos = *seen.entry(key).or_insert_with(|| {
                blocks.push(abs_block::<P>(env, &format!("{}/{}", uni.name, no), b));
                concrete.push(clone_block::<P>(b));
                blocks.len()
            });
            idx.push(pos);
        }
        index.push(idx);
        worlds.push(w);
    }
    let seen = RefCell::new(seen);
    let number = |b: &Block<P>, salt: u32| -> usize { seen.borrow().get(&(parts::<P>(b), salt)).copied().unwrap_or(0) };

    if trips {
        for (v, b) in blocks.iter_mut().zip(&concrete) {
            v["rt"] = round_trips::<P>(b);
        }
    }

    let initial: Vec<State> = worlds.iter().map(|w| State::new(&w.gen)).collect();
    let progress = format!("{out}.progress");
    let mut runs = vec![];
    for run in &file.runs {
        fs::write(&progress, &run.id).unwrap();
        let world = &worlds[run.uni];
        let env = &envs[run.uni];
        let idx = &index[run.uni];
        let mut states: Vec<State> = vec![initial[run.uni].clone(); run.np.max(1)];
        let mut steps = vec![];
        for step in &run.steps {
            match step {
                Step::Roll { p, op } => {
                    let opid: Opid = world.opids[op];
                    let done = states[*p].forget(opid);
                    if done {
                        steps.push(json!({"k": "roll", "p": p + 1, "op": n_op(&opid), "led": states[*p].dump(env)}));
                    }
                }
                Step::Eval { p, items } => {
                    let mut tbs = vec![];
                    let mut concrete = vec![];
                    let mut again = vec![];
                    let mut given = vec![];
                    for item in items {
                        given.push(match *item {
                            FAIL => json!(["fail", 0]),
                            END => json!(["end", 0]),
                            b => json!(["b", idx[b as usize]]),
                        });
                        if *item < 0 {
                            concrete.push((*item, None));
                            again.push((*item, None));
                            tbs.push(0);
                            continue;
                        }
                        let orig = &world.blocks[*item as usize];
                        let sent = catch_unwind(AssertUnwindSafe(|| transport::<P>(&run.tp, orig)));
                        let no = idx[*item as usize] as Item;
                        let (tb, block) = match sent {
                            Ok(Ok(b)) if run.tp == "direct" => (no as usize, b),
                            Ok(Ok(b)) => (number(&b, file.unis[run.uni].salt), b),
                            _ => (0, clone_block::<P>(orig)),
                        };
                        tbs.push(tb);
                        if apart {
                            again.push((no, Some(clone_block::<P>(&block))));
                        }
                        concrete.push((no, Some(block)));
                    }
                    let before = states[*p].clone();
                    let nonce = run.id.split('@').next().unwrap().bytes().fold(steps.len(), |n, b| (n * 31 + b as usize) % 0xFFFF_FFF1);
                    let (mut rec, state) = if apart {
                        // Nothing is evaluated in this very process: take the state from the child
                        let rec = evaluate_apart::<P>(env, before.clone(), again, nonce);
                        let mut state = before.clone();
                        replay::<P>(&mut state, &rec, &concrete);
                        (rec, state)
                    } else {
                        evaluate::<P>(env, before, concrete, nonce)
                    };
                    states[*p] = state;
                    rec["k"] = "eval".into();
                    rec["p"] = (p + 1).into();
                    rec["tp"] = run.tp.clone().into();
                    rec["given"] = given.into();
                    for (i, item) in rec["items"].as_array_mut().unwrap().iter_mut().enumerate() {
                        item["tb"] = tbs[i].into();
                    }
                    rec["led"] = states[*p].dump(env);
                    steps.push(rec);
                }
            }
        }
        let gen = run.uni + 1;
        runs.push(json!({"id": run.id, "gen": gen, "np": run.np.max(1), "steps": steps}));
    }
    let _ = fs::remove_file(&progress);
    fs::write(out, serde_json::to_vec(&json!({"blocks": blocks, "gens": gens, "runs": runs})).unwrap()).unwrap();
}

/// Apply the operations which were applied in another process.
fn replay<P: Proto>(state: &mut State, rec: &Value, items: &[(Item, Option<Block<P>>)]) {
    for (i, item) in rec["items"].as_array().unwrap().iter().enumerate() {
        for fx in item["fx"].as_array().unwrap() {
            if fx[0] == "op" {
                if let Some((_, Some(b))) = items.get(i) {
                    let op: Operation = b.operation.clone();
                    state.apply(op.opid(), op);
                }
            }
        }
    }
}

