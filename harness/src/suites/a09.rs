//! A09: the accounting of errors and the severity that decides the exit code.
use crate::{ensure, rng::Rng, Fail, Suite, R};
use miette::Diagnostic;
use serde::Serialize;
use serde_json::{json, Value};
use std::sync::Mutex;
use weaver_common::diagnostic::{disable_future_mode, enable_future_mode, DiagnosticMessage, DiagnosticMessages, ResultExt};
use weaver_common::error::{handle_errors, WeaverError};
use weaver_common::result::WResult;

#[derive(thiserror::Error, Debug, PartialEq, Serialize, Diagnostic, Clone)]
enum E {
    #[error("w{0}")]
    #[diagnostic(severity(Warning))]
    W(u32),
    #[error("e{0}")]
    #[diagnostic(severity(Error))]
    Er(u32),
    #[error("a{0}")]
    #[diagnostic(severity(Advice))]
    A(u32),
    #[error("n{0}")]
    N(u32),
    #[error("c{0:?}")]
    C(Vec<E>),
}
impl WeaverError<E> for E {
    fn compound(errors: Vec<E>) -> Self {
        E::C(errors)
    }
}
fn mk(k: usize, i: u32) -> E {
    match k {
        0 => E::W(i),
        1 => E::Er(i),
        2 => E::A(i),
        _ => E::N(i),
    }
}
static LOCK: Mutex<()> = Mutex::new(());
struct Mode;
impl Drop for Mode {
    fn drop(&mut self) {
        disable_future_mode();
    }
}

type W = WResult<u32, E>;
fn parts(w: W) -> (Option<u32>, Vec<E>, Option<E>) {
    match w {
        WResult::Ok(t) => (Some(t), vec![], None),
        WResult::OkWithNFEs(t, v) => (Some(t), v, None),
        WResult::FatalErr(e) => (None, vec![], Some(e)),
    }
}
/// the messages as (json error, severity)
fn shown(d: DiagnosticMessages) -> Vec<(Value, Value)> {
    d.into_inner().iter().map(|m| serde_json::to_value(m).unwrap()).map(|v| (v["error"].clone(), v["diagnostic"]["severity"].clone())).collect()
}
fn expect(es: &[E], future: bool) -> Vec<(Value, Value)> {
    es.iter()
        .map(|e| {
            let s = if future {
                json!("Error")
            } else {
                match e {
                    E::W(_) => json!("Warning"),
                    E::Er(_) => json!("Error"),
                    E::A(_) => json!("Advice"),
                    _ => Value::Null,
                }
            };
            (serde_json::to_value(e).unwrap(), s)
        })
        .collect()
}

// index: [future 2][shape: Ok, fatal(4), nfes of length 0..=5 over 4 kinds]
const NF: u64 = 1 + 4 + 16 + 64 + 256 + 1024;
const SHAPES: u64 = 1 + 4 + NF;
fn decode(i: u64) -> Vec<usize> {
    let (mut i, mut len, mut block) = (i, 0, 1u64);
    while i >= block {
        i -= block;
        block *= 4;
        len += 1;
    }
    (0..len).map(|k| ((i >> (2 * k)) & 3) as usize).collect()
}
fn case(_: &mut Rng, idx: u64) -> R {
    let sh = idx % SHAPES;
    let kinds = if sh > 4 { decode(sh - 5) } else { vec![] };
    all(idx / SHAPES == 1, sh, kinds.iter().enumerate().map(|(i, k)| mk(*k, i as u32)).collect())
}
/// long lists, with equal errors in them, an error among warnings at either end
fn long(r: &mut Rng, idx: u64) -> R {
    let n = [7usize, 17, 33, 70, 130, 260, 520, 1030, 2100, 4200][(idx % 10) as usize];
    let mut es: Vec<E> = match idx / 10 % 3 {
        0 => (0..n).map(|i| mk(0, (i % 5) as u32)).collect(),
        1 => (0..n).map(|i| mk(if r.flip() { 0 } else { 2 }, i as u32)).collect(),
        _ => (0..n).map(|_| mk(r.below(4), r.below(40) as u32)).collect(),
    };
    if idx % 2 == 0 {
        es.push(mk(3, 5));
    } else {
        es.insert(0, mk(1, 5));
    }
    all(false, 9, es)
}
fn all(future: bool, sh: u64, es: Vec<E>) -> R {
    let _g = LOCK.lock().unwrap_or_else(|p| p.into_inner());
    let _m = Mode;
    let make = || -> W {
        match sh {
            0 => WResult::Ok(7),
            1..=4 => WResult::FatalErr(mk((sh - 1) as usize, 99)),
            _ => WResult::OkWithNFEs(7, es.clone()),
        }
    };
    let input = json!({"future": future, "shape": if sh == 0 { "Ok" } else if sh <= 4 { "FatalErr" } else { "OkWithNFEs" }, "errors": format!("{es:?}")});
    let bad = |m: String| -> R { Err(Fail { input: input.clone(), msg: m }) };
    let (val, nf, fatal) = parts(make());
    if future {
        enable_future_mode();
    } else {
        disable_future_mode();
    }
    ensure!(make().is_fatal() == fatal.is_some(), input, "is_fatal");
    ensure!(make().has_errors() == (fatal.is_some() || !nf.is_empty()), input, "has_errors");
    ensure!(make().num_errors() == nf.len() + usize::from(fatal.is_some()), input, "num_errors");
    for extra in [vec![], vec![mk(0, 50)], vec![mk(1, 50), mk(3, 51)]] {
        let got = parts(make().extend_non_fatal_errors(extra.clone()));
        let mut want = nf.clone();
        if fatal.is_none() {
            want.extend(extra);
        }
        if got != (val, want, fatal.clone()) {
            return bad(format!("extend_non_fatal_errors gives {got:?}"));
        }
    }
    let got = parts(W::with_non_fatal_errors(3, es.clone()));
    ensure!(got == (Some(3), es.clone(), None), input, "with_non_fatal_errors gives {got:?}");
    let pre = vec![mk(1, 70), mk(0, 71)];
    let prem = || DiagnosticMessages::from_errors(pre.clone());
    // capture of all
    let mut d = prem();
    let r = make().capture_non_fatal_errors(&mut d);
    let want: Vec<E> = pre.iter().chain(nf.iter()).cloned().collect();
    ensure!(r == fatal.clone().map_or(Ok(7), Err), input, "capture_non_fatal_errors returns {r:?}");
    let s = shown(d);
    ensure!(s == expect(&want, future), input, "capture_non_fatal_errors reports {s:?}");
    // capture of warnings
    let mut d = prem();
    let got = parts(make().capture_warnings(&mut d));
    let (w, o): (Vec<E>, Vec<E>) = nf.iter().cloned().partition(|e| matches!(e, E::W(_)));
    ensure!(got == (val, o, fatal.clone()), input, "capture_warnings leaves {got:?}");
    let want: Vec<E> = pre.iter().chain(w.iter()).cloned().collect();
    let s = shown(d);
    ensure!(s == expect(&want, future), input, "capture_warnings reports {s:?}");
    // ignore
    let got = parts(make().ignore(|e| matches!(e, E::A(_) | E::W(_))));
    let keep: Vec<E> = nf.iter().filter(|e| !matches!(e, E::A(_) | E::W(_))).cloned().collect();
    ensure!(got == (val, keep, fatal.clone()), input, "ignore leaves {got:?}");
    // into std results
    let one = |v: &[E]| -> Option<E> { if v.is_empty() { None } else if v.len() == 1 { Some(v[0].clone()) } else { Some(E::C(v.to_vec())) } };
    let want = match (&fatal, one(&nf)) {
        (Some(f), _) => Err(f.clone()),
        (None, Some(e)) => Err(e),
        (None, None) => Ok(7),
    };
    let got = make().into_result_failing_non_fatal();
    ensure!(got == want, input, "into_result_failing_non_fatal gives {got:?}");
    let got = make().into_result_with_non_fatal();
    let want = fatal.clone().map_or(Ok((7, nf.clone())), Err);
    ensure!(got == want, input, "into_result_with_non_fatal gives {got:?}");
    let got = match make().map(|x| x + 1) {
        WResult::Ok(t) => (Some(t), vec![], None),
        WResult::OkWithNFEs(t, v) => (Some(t), v, None),
        WResult::FatalErr(e) => (None, vec![], Some(e)),
    };
    ensure!(got == (val.map(|x| x + 1), nf.clone(), fatal.clone()), input, "map gives {got:?}");
    let mut seen = None;
    let got = parts(make().inspect(|t, e| seen = Some((*t, e.map(|e| e.to_vec()).unwrap_or_default()))));
    ensure!(got == (val, nf.clone(), fatal.clone()), input, "inspect gives {got:?}");
    ensure!(seen == val.map(|v| (v, nf.clone())), input, "inspect shows {seen:?}");
    let got = handle_errors(es.clone());
    ensure!(got == one(&es).map_or(Ok(()), Err), input, "handle_errors gives {got:?}");
    // messages
    let d = DiagnosticMessages::from_errors(es.clone());
    ensure!(d.len() == es.len() && d.is_empty() == es.is_empty(), input, "len/is_empty");
    let err = expect(&es, future).iter().any(|(_, s)| s != "Warning" && s != "Advice");
    ensure!(d.has_error() == err, input, "has_error is {} for {es:?}", d.has_error());
    for e in &es {
        let m = DiagnosticMessage::new(e.clone());
        ensure!(m.is_warning() == (!future && matches!(e, E::W(_))), input, "is_warning of {e:?}");
        ensure!(DiagnosticMessages::from(m.clone()).has_error() == (future || matches!(e, E::Er(_) | E::N(_))), input, "has_error of {e:?}");
        ensure!(shown(DiagnosticMessages::from_error(e.clone())) == expect(&[e.clone()], future), input, "from_error of {e:?}");
    }
    let mut a = prem();
    a.extend(DiagnosticMessages::from_errors(es.clone()));
    let want: Vec<E> = pre.iter().chain(es.iter()).cloned().collect();
    let s = shown(a);
    ensure!(s == expect(&want, future), input, "extend gives {s:?}");
    // ResultExt
    let mut d = prem();
    let r: Result<u32, DiagnosticMessages> = if es.is_empty() { Ok(1) } else { Err(DiagnosticMessages::from_errors(es.clone())) };
    let o = r.capture_diag_msgs_into(&mut d);
    ensure!(o == if es.is_empty() { Some(1) } else { None }, input, "capture_diag_msgs_into gives {o:?}");
    let s = shown(d);
    ensure!(s == expect(&want, future), input, "capture_diag_msgs_into reports {s:?}");
    if !es.is_empty() {
        let r: Result<u32, DiagnosticMessages> = Err(DiagnosticMessages::from_errors(es.clone()));
        let want: Vec<E> = es.iter().chain(pre.iter()).cloned().collect();
        match r.combine_diag_msgs_with(&prem()) {
            Ok(_) => return bad("combine_diag_msgs_with loses the error".into()),
            Err(d) => {
                let s = shown(d);
                ensure!(s == expect(&want, future), input, "combine_diag_msgs_with gives {s:?}");
            }
        }
    }
    // messages carried by a result of messages
    let w: WResult<u32, DiagnosticMessage> = match make() {
        WResult::Ok(t) => WResult::Ok(t),
        WResult::OkWithNFEs(t, v) => WResult::OkWithNFEs(t, v.into_iter().map(DiagnosticMessage::new).collect()),
        WResult::FatalErr(e) => WResult::FatalErr(DiagnosticMessage::new(e)),
    };
    let mut d = prem();
    let r = w.capture_non_fatal_errors(&mut d);
    ensure!(r.is_ok() == fatal.is_none(), input, "capture of messages returns {r:?}");
    let want: Vec<E> = pre.iter().chain(nf.iter()).cloned().collect();
    let s = shown(d);
    ensure!(s == expect(&want, future), input, "capture of messages reports {s:?}");
    Ok(())
}

pub fn suites() -> Vec<Suite> {
    vec![Suite { name: "results", total: Some(2 * SHAPES), run: case }, Suite { name: "long", total: Some(30), run: long }]
}
