use harness::data::*;
use harness::{ensure, fail, run, Ctx, Prop};

fn check(c: &mut Ctx) -> Result<(), String> {
    let mut setup = gen_scheme(&mut c.src, &SCALED);
    if setup.scheme == Scheme::Sprintz && c.src.chance(1, 6) {
        // this scheme takes any scale, not only powers of ten
        let sc = match c.src.below(4) {
            0 => 10u64.pow(c.src.range(10, 14) as u32),
            1 => c.src.range(1, 1000),
            2 => *c.src.pick(&[u32::MAX as u64, u32::MAX as u64 + 1, 1 << 31, 7, 128]),
            _ => c.src.range(1, 10_000_000),
        };
        setup.config.set_scale(sc);
        setup.scale = Some((sc, 99));
        setup.cfg_text = format!("scale={sc}");
    }
    if setup.scheme == Scheme::Buff && c.src.chance(1, 300) {
        // more decimal places than there are precisions
        let sc = match c.src.below(3) {
            0 => 10u64.pow(c.src.range(13, 19) as u32),
            1 => 10u64.pow(13) + c.src.below(1 << 40),
            _ => u64::MAX,
        };
        setup.config.set_scale(sc);
        setup.scale = Some((sc, 99));
        setup.cfg_text = format!("scale={sc}");
    }
    let (scale, p) = setup.scale.unwrap();
    let n = if c.src.chance(1, 80) { 0 } else { gen_len(&mut c.src, 70_000) };
    let mut content = gen_content(&mut c.src, setup, n, false);
    let scheme = content.setup.scheme;
    // Some cases leave the decimal grid: every double of that range is then a legal input.
    let off_grid = c.src.chance(1, 3);
    if off_grid {
        content.grid = None;
        for v in content.values.iter_mut() {
            let f = c.src.below(1 << 20) as f64 / (1u64 << 20) as f64;
            *v += (f - 0.5) / scale as f64;
            if c.src.chance(1, 20) {
                *v = *c.src.pick(&[-0.0, 1e-300, -1e-300, 5e-324, -5e-324, 0.0]);
            } else if c.src.chance(1, 20) {
                // half a unit, or a neighbour of it
                let x = (c.src.irange(-4, 4) as f64 + 0.5) / scale as f64;
                let by = c.src.below(3);
                *v = f64::from_bits(x.to_bits() + by - 1);
            }
        }
    }
    c.label(format!("scheme={scheme:?} p={p}"));
    c.label(format!("shape={}", content.shape));
    c.label(if off_grid { "off-grid" } else { "on-grid" });
    c.note(|| content.describe());
    let most = if scheme == Scheme::Buff { 10u64.pow(13) - 1 } else { u32::MAX as u64 };
    if scale > most && n > 0 {
        // the stored form has no room for such a scale: it has to be refused, not cut off
        c.label("scale-too-large");
        ensure!(
            encode(&content.values, content.setup.config, content.chunk).is_err(),
            "scale {scale} was accepted"
        );
        return Ok(());
    }
    let bytes = encode(&content.values, content.setup.config, content.chunk)?;
    let mut d = open(&bytes)?;
    let got = materialize(&mut d, None, None)?;
    ensure!(got.len() == n, "{} values came back instead of {n}", got.len());
    let unit = 1.0 / scale as f64;
    for i in 0..n {
        let (v, g) = (content.values[i], got[i]);
        ensure!(g.is_finite(), "value {i}: {v:?} came back as {g:?}");
        match scheme {
            Scheme::Sprintz => {
                // the nearest multiple of 1/scale
                let units = v * scale as f64;
                let want = units.round() as i64 as f64 / scale as f64;
                // halfway between two multiples both are nearest
                let other = if units.fract().abs() == 0.5 { units.trunc() as i64 as f64 / scale as f64 } else { want };
                ensure!(
                    g == want || g == other,
                    "value {i}: {v:?} came back as {g:?} instead of {want:?} (scale {scale})"
                );
                if !off_grid {
                    ensure!(g == v, "value {i}: {v:?} is on the grid of scale {scale} but came back as {g:?}");
                }
            }
            Scheme::Buff => {
                let slack = v.abs() * f64::EPSILON * 4.0;
                ensure!(
                    (g - v).abs() < unit + slack,
                    "value {i}: {v:?} came back as {g:?}, off by a unit of scale {scale} or more"
                );
                ensure!(g.abs() <= v.abs(), "value {i}: {v:?} came back larger in magnitude: {g:?}");
                if !off_grid {
                    let r = round_at(g, scale);
                    ensure!(
                        r == v,
                        "value {i}: {v:?} came back as {g:?}, which rounds to {r:?} at scale {scale}"
                    );
                }
            }
            _ => fail!("unexpected scheme"),
        }
    }
    // equal inputs come back equal, order is kept
    for w in 0..n.saturating_sub(1) {
        let (a, b) = (content.values[w], content.values[w + 1]);
        ensure!(
            !(a <= b && got[w] > got[w + 1]) && !(a >= b && got[w] < got[w + 1]),
            "order of {a:?} and {b:?} is not kept: {:?}, {:?}",
            got[w],
            got[w + 1]
        );
    }
    if n > 0 && c.src.flip() {
        let st = chunk_starts(&d, n)?;
        let k = c.src.below(st.len() as u64 - 1) as usize;
        let one = materialize(&mut d, None, Some(k))?;
        same_bits(&one, &got[st[k]..st[k + 1]]).map_err(|e| format!("chunk {k} alone: {e}"))?;
    }
    if n >= 2 {
        c.nontrivial();
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C02",
        rule: "A case is a bounded-precision scheme with a power-of-ten scale (10^0..10^9 for the delta scheme, 10^0..10^12 for the fixed-point scheme), a stream of 0..2600 (rarely up to 140000) values on (or, in a third of the cases, around, often next to the middle of two) that scale's decimal grid with |value*scale| <= 2^50 in 8 shapes (every delta width, constants, runs, walks, full range), and a chunking; it is encoded and decoded. Non-trivial: at least two values. Distinct: by the hash of all choices drawn.",
        assumptions: &[
            "values within |value*scale| <= 2^50 and scales that are powers of ten (the domain in which the decimal grid is exactly representable)",
            "little-endian 64-bit host",
        ],
        quick_cases: 3_000_000,
        thorough_cases: 8_000_000,
        case_timeout_s: 60,
        check,
    })
}
