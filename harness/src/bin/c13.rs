use ebi::api::decoder::{ChunkId, Decoder, DecoderInput, DecoderOutput};
use ebi::api::encoder::{Encoder, EncoderInput, EncoderOutput};
use harness::data::*;
use harness::faults::*;
use harness::{ensure, run, Ctx, Prop};
use std::io::{BufReader, Cursor, Read, Seek, Write};

/// Queries through any stream; each must give what the plain decoder gives.
fn queries<R: Read + Seek>(
    c: &mut Ctx,
    input: R,
    content: &Content,
    full: &[f64],
    st: &[usize],
    out_plan: &Plan,
) -> Result<(), String> {
    let n = full.len();
    let mut d = Decoder::new(DecoderInput::from_reader(input)).map_err(|e| format!("opening failed: {e}"))?;
    ensure!(d.footer().number_of_records() as usize == n, "{} records", d.footer().number_of_records());
    for _ in 0..c.src.urange(1, 3) {
        let mask = gen_mask(&mut c.src, n, st);
        let chunk = gen_chunk_id(&mut c.src, st.len() - 1);
        let cid = chunk.map(ChunkId::new);
        let sel: Vec<usize> = (0..n).filter(|i| selected(*i, mask.as_ref(), chunk, st)).collect();
        let (w, _) = Stream::new(Vec::new(), out_plan.clone());
        match c.src.below(4) {
            0 => {
                let mut o = DecoderOutput::from_writer(w);
                d.materialize(&mut o, mask.as_ref(), cid).map_err(|e| format!("scan failed: {e}"))?;
                same_bits(&to_f64s(&o.into_writer().inner), &sel.iter().map(|i| full[*i]).collect::<Vec<_>>())?;
            }
            1 => {
                let p = gen_predicate(&mut c.src, content);
                let mut o = DecoderOutput::from_writer(w).into_buffered();
                d.filter_materialize(&mut o, p, mask.as_ref(), cid).map_err(|e| format!("filtered scan failed: {e}"))?;
                let mut b = o.into_writer();
                b.flush().map_err(|e| format!("flush failed: {e}"))?;
                let want: Vec<f64> =
                    sel.iter().filter(|i| pred_holds(&p, content.values[**i])).map(|i| full[*i]).collect();
                same_bits(&to_f64s(&b.into_inner().map_err(|e| e.to_string())?.inner), &want)?;
            }
            2 => {
                let p = gen_predicate(&mut c.src, content);
                let got = d.filter(p, mask.as_ref(), cid).map_err(|e| format!("filter failed: {e}"))?;
                let want = sel.iter().filter(|i| pred_holds(&p, content.values[**i])).map(|i| *i as u32).collect();
                ensure!(got == want, "filter {p:?}: {} records instead of {}", got.len(), want.len());
            }
            _ => {
                let got = d.max(mask.as_ref(), cid).map_err(|e| format!("max failed: {e}"))?;
                let want = sel.iter().map(|i| full[*i]).fold(f64::NEG_INFINITY, f64::max);
                ensure!(got == want, "max {got:?} instead of {want:?}");
            }
        }
    }
    Ok(())
}

fn check(c: &mut Ctx) -> Result<(), String> {
    let setup = gen_scheme(&mut c.src, &ALL);
    let n = gen_len_or_long(&mut c.src, 900, 4000);
    let content = gen_content(&mut c.src, setup, n, false);
    c.label(format!("scheme={:?}", content.setup.scheme));
    c.note(|| content.describe());
    let plain = encode(&content.values, content.setup.config, content.chunk)?;
    let want = without_times(&plain)?;

    // encoding through streams
    let mut input: Vec<u8> = content.values.iter().flat_map(|v| v.to_le_bytes()).collect();
    // an incomplete number at the end of the input is not a record
    let rest = if c.src.chance(1, 4) { c.src.urange(1, 7) } else { 0 };
    input.extend_from_slice(&[0x5a; 7][..rest]);
    let (ip, op) = (gen_benign(&mut c.src), gen_benign(&mut c.src));
    c.note(|| format!("encode {n}*8+{rest} bytes, input {ip:?}, output {op:?}"));
    let (r, rs) = Stream::new(&input[..], ip);
    let (w, ws) = Stream::new(Cursor::new(Vec::new()), op);
    let dir = std::env::temp_dir().join(format!("ebi-c13-{}", std::process::id()));
    let (cfg, ch) = (content.setup.config, content.chunk);
    let kind = if c.src.chance(1, 50) { 3 } else { c.src.below(3) };
    let bytes = match kind {
        0 => {
            let mut e = Encoder::new(EncoderInput::from_reader(r), EncoderOutput::from_writer(w), ch, cfg);
            e.encode().map_err(|e| format!("encoding through streams failed: {e}"))?;
            e.into_output().into_inner().inner.into_inner()
        }
        1 => {
            let mut e =
                Encoder::new(EncoderInput::from_reader(r), EncoderOutput::from_writer(w).into_buffered(), ch, cfg);
            e.encode().map_err(|e| format!("encoding through buffered streams failed: {e}"))?;
            // everything must have reached the stream below the buffer already
            e.into_output().into_inner().into_parts().0.inner.into_inner()
        }
        2 => {
            let mut e = Encoder::new(EncoderInput::from_slice(&input), EncoderOutput::from_writer(w), ch, cfg);
            e.encode().map_err(|e| format!("encoding a byte slice failed: {e}"))?;
            e.into_output().into_inner().inner.into_inner()
        }
        _ => {
            std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
            let (a, b) = (dir.join("in"), dir.join("out"));
            std::fs::write(&a, &input).map_err(|e| e.to_string())?;
            let io = |e: std::io::Error| format!("file: {e}");
            let mut e = Encoder::new(
                EncoderInput::from_file(&a).map_err(io)?,
                EncoderOutput::from_file(&b).map_err(io)?,
                ch,
                cfg,
            );
            e.encode().map_err(|e| format!("encoding a file failed: {e}"))?;
            drop(e);
            let r = std::fs::read(&b).map_err(io)?;
            let mut d = Decoder::new(DecoderInput::from_file(&b).map_err(io)?).map_err(|e| e.to_string())?;
            let mut o = DecoderOutput::from_file(&a).map_err(io)?;
            d.materialize(&mut o, None, None).map_err(|e| format!("decoding a file failed: {e}"))?;
            drop(o);
            let got = to_f64s(&std::fs::read(&a).map_err(io)?);
            let _ = std::fs::remove_dir_all(&dir);
            same_bits(&got, &materialize(&mut open(&plain)?, None, None)?)?;
            r
        }
    };
    c.label(["streams", "buffered", "slice", "file"][kind as usize]);
    let got = without_times(&bytes)?;
    if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b);
        return Err(format!(
            "encoding through these streams gives another file: {} bytes instead of {}, first difference at {at:?}",
            got.len(),
            want.len()
        ));
    }
    let disturbed = {
        let (a, b) = (rs.borrow(), ws.borrow());
        a.interrupted + b.interrupted + a.shortened + b.shortened
    };

    // decoding through streams
    let mut d = open(&plain)?;
    let full = materialize(&mut d, None, None)?;
    ensure!(full.len() == n, "{} values instead of {n}", full.len());
    let st = chunk_starts(&d, n)?;
    let (ip, op) = (gen_benign(&mut c.src), gen_benign(&mut c.src));
    c.note(|| format!("decode from {ip:?} to {op:?}"));
    let (r, rs) = Stream::new(Cursor::new(plain), ip);
    if c.src.flip() {
        queries(c, r, &content, &full, &st, &op).map_err(|e| format!("decoding through streams: {e}"))?;
    } else {
        let cap = c.src.urange(1, 300);
        queries(c, BufReader::with_capacity(cap, r), &content, &full, &st, &op)
            .map_err(|e| format!("decoding through buffered streams: {e}"))?;
    }
    let disturbed = disturbed + rs.borrow().interrupted + rs.borrow().shortened;
    if n >= 2 && disturbed > 0 {
        c.nontrivial();
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C13",
        rule: "A case is a scheme with a configuration, 1..900 (rarely up to 140000) values (plus 0..7 bytes of an incomplete one), a chunking, and four scripted streams (encoder input and output, decoder input and output) that transfer at most 1..600 bytes per call in a cyclic pattern and interrupt every k-th call; the output is optionally buffered, the input a stream, a byte slice or a file. Oracle: the encoded file equals the one made from memory (except for recorded durations), and scan, filter, filtered scan and maximum over the streams equal those of the plain decoder. Non-trivial: at least two records and at least one shortened or interrupted call. Distinct: by the hash of all choices drawn.",
        assumptions: &[
            "streams follow the Read/Write/Seek contracts; output starts at position 0",
            "non-NaN values; for the bounded-precision schemes the values, and for the fixed-point scheme the constants, lie on the scale's decimal grid",
        ],
        quick_cases: 500_000,
        thorough_cases: 5_000_000,
        case_timeout_s: 60,
        check,
    })
}
