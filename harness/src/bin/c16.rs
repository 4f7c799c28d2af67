use ebi::compression_common::elf::{get_10i_n, get_alpha_and_beta_star, get_f_alpha, get_sp, round_up};
use harness::{ensure, run, Ctx, Prop};

fn check(c: &mut Ctx) -> Result<(), String> {
    let mut shown = vec![];
    let n = 64;
    let (mut exact, mut erased) = (0, 0);
    let mut last = i32::MAX;
    for _ in 0..n {
        let s = &mut c.src;
        // d * 10^e with 1..15 significant digits, as a decimal string, parsed by the standard library
        let k = s.range(1, 15) as u32;
        let (lo, hi) = (10u64.pow(k - 1), 10u64.pow(k) - 1);
        let d = match s.below(8) {
            0 => lo,
            // not 13 or more nines: the logarithm of such a value rounds up to the next power
            1 => hi - if k > 12 { 9 * 10u64.pow(k - 12) } else { 0 },
            2 => lo + s.below(10).min(hi - lo),
            _ => s.range(lo, hi - if k > 12 { 10u64.pow(k - 12) } else { 0 }),
        };
        let e = s.irange(-18, 0);
        let neg = s.chance(1, 3);
        let v: f64 = format!("{d}e{e}").parse().unwrap();
        let v = if neg { -v } else { v };
        if shown.len() < 6 {
            shown.push(v);
        }
        match s.below(4) {
            0 => last = i32::MAX,
            1 => last = s.range(0, 15) as i32,
            _ => {} // the digits of the value before, as the compressor does it
        }
        // the true decimal shape
        let (mut dd, mut places) = (d, -e);
        while places > 0 && dd % 10 == 0 {
            dd /= 10;
            places -= 1;
        }
        let exponent = k as i64 - 1 + e;
        let power = dd == 1 && places > 0;
        let digits = if power { 0 } else { exponent + places + 1 };

        let sp = get_sp(v.abs()) as i64;
        ensure!(sp == exponent, "{v:?}: decimal exponent {sp} instead of {exponent}");
        let (alpha, beta) = get_alpha_and_beta_star(v, last);
        let what = format!("{v:?} after a value of {last} digits: {alpha} places and {beta} digits");
        if beta >= 16 || (power && beta == 0 && alpha as i64 + exponent + 1 >= 16) {
            last = beta;
            continue; // reported as not compressible
        }
        ensure!(
            alpha as i64 == places && beta as i64 == digits,
            "{what} instead of {places} places and {digits} digits"
        );
        exact += 1;
        // erase every bit below the reported position
        let f = get_f_alpha(alpha);
        let keep = f as i64 + ((v.to_bits() >> 52) & 0x7ff) as i64 - 1023;
        if 52 - keep > 4 {
            let mask = if 52 - keep >= 64 { 0 } else { u64::MAX << (52 - keep) };
            let w = f64::from_bits(v.to_bits() & mask);
            if w != v {
                erased += 1;
                let gap = (v - w).abs();
                ensure!(gap < get_10i_n(alpha), "{what}: erasing changes it by {gap:e}, one unit or more");
                let spw = get_sp(w.abs());
                if power {
                    let got = get_10i_n((-spw - 1) as u32);
                    ensure!(got == v.abs(), "{what}: {got:?} is recovered");
                } else {
                    let got = round_up(w, (beta - spw - 1) as u32);
                    ensure!(got.to_bits() == v.to_bits(), "{what}: {got:?} is recovered from {w:?}");
                    ensure!(
                        round_up(-w, (beta - spw - 1) as u32) == -v,
                        "{what}: the negated value is not recovered"
                    );
                }
            }
        }
        last = beta;
    }
    // tables: 2^f is the smallest power of two that is not below 10^a; 10^-a is correctly rounded
    let a = c.src.below(38) as u32;
    let f = get_f_alpha(a);
    let p = 10u128.pow(a);
    ensure!(
        f < 128 && (1u128 << f) >= p && (f == 0 || (1u128 << (f - 1)) < p),
        "{f} bits for {a} decimal places"
    );
    let a = c.src.below(300) as u32;
    let t: f64 = format!("1e-{a}").parse().unwrap();
    ensure!(get_10i_n(a).to_bits() == t.to_bits(), "10^-{a} is {:?}", get_10i_n(a));
    // The analysis gives up only exceptionally (values whose scaling is inexact): about one in ten.
    ensure!(exact >= n / 4, "only {exact} of {n} decimals of at most 15 digits were analysed");
    c.note(|| format!("{shown:?}...: {exact} of {n} analysed exactly, {erased} erased and recovered"));
    c.label(format!("exact={}-{}", exact / 8 * 8, exact / 8 * 8 + 7));
    if erased >= 8 {
        c.nontrivial();
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C16",
        rule: "A case is 64 decimals of 1..15 significant digits at 0..18 decimal places (biased to powers of ten and their neighbours), of either sign, each analysed with a digit count left by another value, plus one entry of the bits-per-places table and one negative power of ten. Oracle: the digits of the decimal string the value was parsed from, and exact integer arithmetic for the tables. Non-trivial: at least 8 of the 64 lose bits in the erasure and are recovered. Distinct: by the hash of all choices drawn.",
        assumptions: &[
            "decimals whose first 13 digits are not all nines, of at most 15 significant digits and at most 18 decimal places",
            "the analysis may give up on a value by reporting 16 or more digits, but on at most three quarters of 64 independent decimals (measured: about a tenth)",
        ],
        quick_cases: 2_000_000,
        thorough_cases: 20_000_000,
        case_timeout_s: 30,
        check,
    })
}
