use ebi_ref::api::decoder as rdec;
use ebi_ref::api::encoder as renc;
use harness::data::*;
use harness::{ensure, run, Ctx, Prop};
use std::io::Cursor;

type RefDec = rdec::Decoder<Cursor<Vec<u8>>>;

fn ref_open(b: &[u8]) -> Result<RefDec, String> {
    rdec::Decoder::new(rdec::DecoderInput::from_reader(Cursor::new(b.to_vec()))).map_err(|e| e.to_string())
}

fn ref_materialize(d: &mut RefDec) -> Result<Vec<f64>, String> {
    let mut o = rdec::DecoderOutput::from_vec(Vec::new());
    d.materialize(&mut o, None, None).map_err(|e| e.to_string())?;
    Ok(to_f64s(&o.into_writer().into_inner()))
}

fn ref_encode(c: &Content) -> Result<Vec<u8>, String> {
    let id = scheme_id(c.setup.scheme);
    let scheme = ebi_ref::format::CompressionScheme::try_from(id).map_err(|e| e.to_string())?;
    let cfg = ebi_ref::compressor::CompressorConfig::from_le_bytes(&scheme, &config_bytes(c.setup.config));
    let chunk = match c.chunk {
        ebi::encoder::ChunkOption::Full => ebi_ref::encoder::ChunkOption::Full,
        ebi::encoder::ChunkOption::RecordCount(n) => ebi_ref::encoder::ChunkOption::RecordCount(n),
        ebi::encoder::ChunkOption::ByteSizeBestEffort(n) => ebi_ref::encoder::ChunkOption::ByteSizeBestEffort(n),
    };
    let mut e = renc::Encoder::new(
        renc::EncoderInput::from_f64_slice(&c.values),
        renc::EncoderOutput::from_vec(Vec::new()),
        chunk,
        cfg,
    );
    e.encode().map_err(|e| format!("reference encoder: {e}"))?;
    Ok(e.into_output().into_vec())
}

fn check(c: &mut Ctx) -> Result<(), String> {
    let setup = gen_scheme(&mut c.src, &ALL);
    let n = if c.src.chance(1, 60) { 0 } else { gen_len_or_long(&mut c.src, 2000, 1500) };
    let content = gen_content(&mut c.src, setup, n, false);
    c.label(format!("scheme={:?}", content.setup.scheme));
    c.label(format!("shape={}", content.shape));
    c.note(|| content.describe());

    // a file written by the earlier release, read by this one
    let old = ref_encode(&content)?;
    let mut rd = ref_open(&old).map_err(|e| format!("reference decoder on its own file: {e}"))?;
    let old_values = ref_materialize(&mut rd).map_err(|e| format!("reference decoder on its own file: {e}"))?;
    let mut d = open(&old).map_err(|e| format!("a file of the earlier release: {e}"))?;
    ensure!(d.footer().number_of_records() as usize == n, "a file of the earlier release: {} records", d.footer().number_of_records());
    ensure!(
        d.footer().chunk_footers().len() == rd.footer().chunk_footers().len(),
        "a file of the earlier release: {} chunks instead of {}",
        d.footer().chunk_footers().len(),
        rd.footer().chunk_footers().len()
    );
    ensure!(
        *d.footer().compressor_config() == content.setup.config,
        "a file of the earlier release: configuration {:?} instead of {:?}",
        d.footer().compressor_config(),
        content.setup.config
    );
    ensure!(
        *d.header().config().chunk_option() == content.chunk,
        "a file of the earlier release: chunk option {:?}",
        d.header().config().chunk_option()
    );
    ensure!(
        d.footer().compression_elapsed_time_nano_secs() == rd.footer().compression_elapsed_time_nano_secs(),
        "a file of the earlier release: another elapsed time"
    );
    let got = materialize(&mut d, None, None).map_err(|e| format!("a file of the earlier release: {e}"))?;
    same_bits(&got, &old_values).map_err(|e| format!("a file of the earlier release: {e}"))?;

    // a file written by this release, read by the earlier one
    let new = encode(&content.values, content.setup.config, content.chunk)?;
    let mut rd = ref_open(&new).map_err(|e| format!("the earlier release refuses a new file: {e}"))?;
    let seen = ref_materialize(&mut rd).map_err(|e| format!("the earlier release fails on a new file: {e}"))?;
    let own = materialize(&mut open(&new)?, None, None)?;
    same_bits(&seen, &own).map_err(|e| format!("the earlier release reads a new file differently: {e}"))?;
    ensure!(rd.footer().number_of_records() as usize == n, "the earlier release sees {} records", rd.footer().number_of_records());
    if n >= 2 {
        c.nontrivial();
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C15",
        rule: "A case is a scheme with a configuration (all 13), 0..2000 (rarely up to 140000) values of one of 14 shapes (or 8 on the scale's grid), and a chunking. It is encoded by a frozen copy of the library (the commit is in reference/ebi-ref/COMMIT) and by the current one, and each file is decoded by both. Oracle: the same values, record counts, chunk counts, configuration and chunk option from either decoder. Non-trivial: at least two records. Distinct: by the hash of all choices drawn.",
        assumptions: &["the frozen copy is the earlier release; non-NaN values (NaN only where the scheme stores it)"],
        quick_cases: 500_000,
        thorough_cases: 5_000_000,
        case_timeout_s: 60,
        check,
    })
}
