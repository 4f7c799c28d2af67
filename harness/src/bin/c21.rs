use ebi::api::decoder::{ChunkId, Decoder, DecoderInput, DecoderOutput};
use ebi::api::encoder::{Encoder, EncoderInput, EncoderOutput};
use harness::data::*;
use harness::faults::*;
use harness::{ensure, fail, run, Ctx, Prop};
use std::io::{BufWriter, Cursor};

fn check(c: &mut Ctx) -> Result<(), String> {
    let setup = gen_scheme(&mut c.src, &ALL);
    let n = if c.src.chance(1, 40) { 0 } else { gen_len(&mut c.src, 700) };
    let content = gen_content(&mut c.src, setup, n, false);
    c.label(format!("scheme={:?}", content.setup.scheme));
    c.note(|| content.describe());
    let plain = encode(&content.values, content.setup.config, content.chunk)?;
    let full = materialize(&mut open(&plain)?, None, None)?;
    ensure!(full.len() == n, "{} values instead of {n}", full.len());
    let (cfg, ch) = (content.setup.config, content.chunk);
    let kind = c.src.below(4) as usize;

    if c.src.flip() {
        // ------------------------------------------------ a failure while encoding
        let input: Vec<u8> = content.values.iter().flat_map(|v| v.to_le_bytes()).collect();
        let on_input = c.src.chance(1, 3);
        let buffered = c.src.chance(1, 4);
        let shorts = if c.src.flip() { vec![] } else { vec![c.src.urange(64, 700)] };
        let make = |fail: Option<u64>, persistent: bool| {
            let quiet = Plan { short: shorts.clone(), ..Plan::default() };
            let loud = Plan { fail_at: fail, kind, persistent, ..quiet.clone() };
            let (ip, op) = if on_input { (loud, quiet) } else { (quiet, loud) };
            let (r, rs) = Stream::new(&input[..], ip);
            let (w, ws) = Stream::new(Cursor::new(Vec::new()), op);
            (r, rs, w, ws)
        };
        let go = |fail: Option<u64>, persistent: bool| -> (Result<(), String>, u64, u64, Vec<u8>) {
            let (r, rs, w, ws) = make(fail, persistent);
            let (res, bytes) = if buffered {
                let mut e =
                    Encoder::new(EncoderInput::from_reader(r), EncoderOutput::from_writer(BufWriter::new(w)), ch, cfg);
                let res = e.encode().map_err(|e| e.to_string());
                (res, e.into_output().into_inner().into_parts().0.inner.into_inner())
            } else {
                let mut e = Encoder::new(EncoderInput::from_reader(r), EncoderOutput::from_writer(w), ch, cfg);
                let res = e.encode().map_err(|e| e.to_string());
                (res, e.into_output().into_inner().inner.into_inner())
            };
            let s = if on_input { rs.borrow() } else { ws.borrow() };
            (res, s.calls, s.fired, bytes)
        };
        let (res, calls, _, bytes) = go(None, false);
        res.map_err(|e| format!("encoding without a failure: {e}"))?;
        ensure!(without_times(&bytes)? == without_times(&plain)?, "encoding through streams differs");
        if calls == 0 {
            return Ok(());
        }
        let k = c.src.below(calls);
        let persistent = c.src.flip();
        let what = if on_input { "input" } else { "output" };
        c.note(|| format!("{what} call {k} of {calls} fails, persistent {persistent}, buffered {buffered}"));
        let (res, _, fired, left) = go(Some(k), persistent);
        ensure!(fired > 0, "call {k} of {calls} on the {what} was not made the second time");
        if res.is_ok() {
            fail!("call {k} of {calls} on the {what} failed, but encoding reports success");
        }
        c.label(format!("encode-{what}"));
        // what is left behind is refused, or it is the whole file
        match open(&left) {
            Err(_) => c.label("left-refused"),
            Ok(mut d) => {
                c.label("left-complete");
                let got = materialize(&mut d, None, None)
                    .map_err(|e| format!("after call {k} of {calls} on the {what} failed, the file opens but: {e}"))?;
                if got.len() != n || same_bits(&got, &full).is_err() {
                    fail!(
                        "after call {k} of {calls} on the {what} failed, the file opens with {} of {n} records",
                        got.len()
                    );
                }
            }
        }
        c.nontrivial();
        return Ok(());
    }

    // ---------------------------------------------------- a failure while decoding
    let plain_dec = open(&plain)?;
    let st = if n > 0 { chunk_starts(&plain_dec, n)? } else { vec![0, 0] };
    let mask = if n > 0 { gen_mask(&mut c.src, n, &st) } else { None };
    let chunk = if n > 0 { gen_chunk_id(&mut c.src, st.len() - 1) } else { None };
    let cid = chunk.map(ChunkId::new);
    let p = gen_predicate(&mut c.src, &content);
    let op = c.src.below(6);
    let name = ["scan", "filter", "filtered scan", "sum", "min", "nearest"][op as usize];
    let on_output = (op == 0 || op == 2) && c.src.flip();
    let target: Vec<f64> = full.iter().take(3).copied().collect();
    // (opened, answer): the answer is the bytes that define the result
    let go = |d: &mut Decoder<Stream<Cursor<Vec<u8>>>>, w: Plan| -> (Result<Vec<u8>, String>, u64, u64) {
        let (w, ws) = Stream::new(Vec::new(), w);
        let mut o = DecoderOutput::from_writer(w);
        let res = match op {
            0 => d.materialize(&mut o, mask.as_ref(), cid).map(|_| vec![]),
            1 => d.filter(p, mask.as_ref(), cid).map(|b| b.iter().flat_map(|x| x.to_le_bytes()).collect()),
            2 => d.filter_materialize(&mut o, p, mask.as_ref(), cid).map(|_| vec![]),
            3 => d.sum(mask.as_ref(), cid).map(|v| v.to_le_bytes().to_vec()),
            4 => d.min(mask.as_ref(), cid).map(|v| v.to_le_bytes().to_vec()),
            _ if target.is_empty() => Ok(vec![]),
            _ => d.knn1(&target).map(|r| r.index.to_le_bytes().to_vec()),
        };
        let res = res.map_err(|e| e.to_string()).map(|mut b| {
            b.extend_from_slice(&o.into_writer().inner);
            b
        });
        let s = ws.borrow();
        (res, s.calls, s.fired)
    };
    // without a failure: how many calls opening and the query make
    let quiet = if c.src.flip() { gen_benign(&mut c.src) } else { Plan::default() };
    let (r, rs) = Stream::new(Cursor::new(plain.clone()), quiet.clone());
    let mut d = Decoder::new(DecoderInput::from_reader(r)).map_err(|e| format!("opening: {e}"))?;
    let opening = rs.borrow().calls;
    let (want, wcalls, _) = go(&mut d, Plan::default());
    let want = want.map_err(|e| format!("{name} without a failure: {e}"))?;
    let calls = rs.borrow().calls;

    if on_output {
        if wcalls == 0 {
            return Ok(());
        }
        let k = c.src.below(wcalls);
        c.note(|| format!("{name}: output call {k} of {wcalls} fails"));
        let (res, _, fired) = go(&mut d, Plan { fail_at: Some(k), kind, ..Plan::default() });
        ensure!(fired > 0, "{name}: output call {k} of {wcalls} was not made");
        if res.is_ok() {
            fail!("{name}: output call {k} of {wcalls} failed, but success is reported");
        }
        let (again, _, _) = go(&mut d, Plan::default());
        ensure!(
            again.as_ref() == Ok(&want),
            "{name}: after a failed output call the same decoder gives another answer ({:?})",
            again.err()
        );
        c.label("decode-output");
        c.nontrivial();
        return Ok(());
    }
    let among = if c.src.flip() { opening } else { calls };
    let k = c.src.below(among);
    c.note(|| format!("{name}: input call {k} of {calls} fails (opening makes {opening})"));
    let (r, rs) = Stream::new(Cursor::new(plain.clone()), Plan { fail_at: Some(k), kind, ..quiet });
    match Decoder::new(DecoderInput::from_reader(r)) {
        Err(_) => {
            ensure!(rs.borrow().fired > 0, "opening fails although no call has");
            c.label("opening-refused");
        }
        Ok(mut d) => {
            ensure!(rs.borrow().fired == 0, "input call {k} of {opening} failed, but opening reports success");
            let (res, _, _) = go(&mut d, Plan::default());
            ensure!(rs.borrow().fired > 0, "{name}: input call {k} of {calls} was not made the second time");
            if res.is_ok() {
                fail!("{name}: input call {k} of {calls} failed, but success is reported");
            }
            let (again, _, _) = go(&mut d, Plan::default());
            ensure!(
                again.as_ref() == Ok(&want),
                "{name}: after a failed input call the same decoder gives another answer ({:?})",
                again.err()
            );
            c.label("decode-input");
        }
    }
    c.nontrivial();
    Ok(())
}

fn main() {
    run(Prop {
        id: "C21",
        rule: "A case is a scheme with a configuration, 0..700 values, a chunking, and one injected failure: half the cases encode and one call (read of the input; write, seek or flush of the output, directly or under a buffer) chosen uniformly among all the calls a clean run makes fails once or from then on; the others open the file and run one query (scan, filter, filtered scan, sum, min, nearest neighbour) and one call on the input or output stream fails once, the input delivering everything at once or short pieces and interruptions. Oracle: the call that met the failure reports an error and does not panic; what a failed encode leaves behind is refused when opened or holds every record; after a failed query the same decoder answers the repeated query as if nothing had happened. Non-trivial: the failure was met. Distinct: by the hash of all choices drawn.",
        assumptions: &[
            "a failing call transfers nothing and is not of kind Interrupted or UnexpectedEof; writes of at most 64 bytes are atomic",
            "non-NaN values; for the bounded-precision schemes the values, and for the fixed-point scheme the constants, lie on the scale's decimal grid",
        ],
        quick_cases: 500_000,
        thorough_cases: 6_000_000,
        case_timeout_s: 60,
        check,
    })
}
