use ebi_ref::api::encoder as renc;
use harness::data::*;
use harness::{ensure, run, Ctx, Prop};

fn ref_encode(c: &Content) -> Result<Vec<u8>, String> {
    let id = scheme_id(c.setup.scheme);
    let scheme = ebi_ref::format::CompressionScheme::try_from(id).map_err(|e| e.to_string())?;
    let cfg = ebi_ref::compressor::CompressorConfig::from_le_bytes(&scheme, &config_bytes(c.setup.config));
    let chunk = match c.chunk {
        ebi::encoder::ChunkOption::Full => ebi_ref::encoder::ChunkOption::Full,
        ebi::encoder::ChunkOption::RecordCount(n) => ebi_ref::encoder::ChunkOption::RecordCount(n),
        ebi::encoder::ChunkOption::ByteSizeBestEffort(n) => ebi_ref::encoder::ChunkOption::ByteSizeBestEffort(n),
    };
    let mut e = renc::Encoder::new(
        renc::EncoderInput::from_f64_slice(&c.values),
        renc::EncoderOutput::from_vec(Vec::new()),
        chunk,
        cfg,
    );
    e.encode().map_err(|e| format!("reference encoder: {e}"))?;
    Ok(e.into_output().into_vec())
}

fn check(c: &mut Ctx) -> Result<(), String> {
    let setup = gen_scheme(&mut c.src, &ALL);
    let n = gen_len_or_long(&mut c.src, 3000, 1500);
    let content = gen_content(&mut c.src, setup, n, false);
    c.label(format!("scheme={:?}", content.setup.scheme));
    c.label(format!("shape={}", content.shape));
    c.note(|| content.describe());
    let old = parse_container(&ref_encode(&content)?)?;
    let new = parse_container(&encode(&content.values, content.setup.config, content.chunk)?)?;
    let (o, w) = (old.footer_offset as usize - HEADER_SIZE, new.footer_offset as usize - HEADER_SIZE);
    // half a percent, and four bytes per chunk, are rounding
    let limit = o + o / 200 + 4 * old.chunks.len();
    ensure!(
        w <= limit,
        "{n} records take {w} bytes in {} chunks, {o} bytes in {} chunks with the reference encoder",
        new.chunks.len(),
        old.chunks.len()
    );
    if o < 8 * n {
        c.label("compressible");
        c.nontrivial();
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C20",
        rule: "A case is a scheme with a configuration (all 13), 1..3000 (rarely up to 140000) values of one of 14 shapes (or 8 on the scale's grid), and a chunking, encoded by the current library and by a frozen copy of it. Oracle: the current encoding takes at most 0.5 % plus 4 bytes per chunk more than the frozen one. Non-trivial: the frozen encoder makes the data smaller. Distinct: by the hash of all choices drawn.",
        assumptions: &["the frozen copy (reference/ebi-ref/COMMIT) is the measure of each scheme's compression"],
        quick_cases: 500_000,
        thorough_cases: 6_000_000,
        case_timeout_s: 60,
        check,
    })
}
