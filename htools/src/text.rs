//! Generated decimal literals and delimited text.
use harness::source::Source;

/// A decimal literal as data files spell them, with the number of decimals it is written with
/// (digits after the point, shifted by the exponent).
#[derive(Clone, Debug)]
pub struct Literal {
    pub text: String,
    pub decimals: i64,
}

/// `wild`: also long digit strings and large exponents.
pub fn literal(s: &mut Source, max_frac: u64, wild: bool) -> Literal {
    let mut t = String::new();
    match s.below(8) {
        6 => t.push('-'),
        7 => {
            if s.chance(1, 6) {
                t.push('+')
            } else {
                t.push('-')
            }
        }
        _ => {}
    }
    let int_digits = if wild && s.chance(1, 12) { s.range(10, 25) } else { s.range(1, 6) };
    let mut int = String::new();
    for i in 0..int_digits {
        let d = if i == 0 && int_digits > 1 && !s.chance(1, 12) { s.range(1, 9) } else { s.range(0, 9) };
        int.push((b'0' + d as u8) as char);
    }
    let mut frac = 0;
    let form = s.below(12);
    if form == 11 {
        // ".5"
        frac = s.range(1, max_frac.max(1));
        t.push('.');
    } else {
        t.push_str(&int);
        if form >= 3 {
            frac = s.range(1, max_frac.max(1));
            t.push('.');
        } else if form == 2 && s.chance(1, 4) {
            t.push('.'); // "5."
        }
    }
    for _ in 0..frac {
        let d = if s.chance(1, 3) { 0 } else { s.range(0, 9) };
        t.push((b'0' + d as u8) as char);
    }
    let mut exp = 0i64;
    if s.chance(1, 4) {
        exp = if wild && s.chance(1, 6) { s.irange(-330, 310) } else { s.irange(-6, 6) };
        t.push(if s.chance(1, 3) { 'E' } else { 'e' });
        if exp >= 0 && s.flip() {
            t.push('+');
        }
        t.push_str(&exp.to_string());
    }
    Literal { text: t, decimals: (frac as i64 - exp).max(0) }
}

/// Lines of fields: where the fields are, and the text around them.
pub fn layout(s: &mut Source, fields: &[String], sep: char) -> String {
    let crlf = s.chance(1, 6);
    let pad = s.chance(1, 4);
    let gaps = s.chance(1, 4);
    let last = s.chance(3, 4);
    let mut out = String::new();
    let mut i = 0;
    let width = match s.below(4) {
        0 => 1,
        1 => s.urange(1, 5),
        2 => s.urange(1, 40),
        _ => fields.len().max(1),
    };
    while i < fields.len() {
        let k = width.min(fields.len() - i);
        if gaps && s.chance(1, 6) {
            out.push(sep);
        }
        for j in 0..k {
            if j > 0 {
                out.push(sep);
                if gaps && s.chance(1, 8) {
                    out.push(sep);
                }
            }
            if pad && s.chance(1, 3) {
                out.push(' ');
            }
            out.push_str(&fields[i + j]);
            if pad && s.chance(1, 3) {
                out.push(' ');
            }
        }
        if gaps && s.chance(1, 6) {
            out.push(sep);
        }
        i += k;
        if i < fields.len() || last {
            out.push_str(if crlf { "\r\n" } else { "\n" });
        }
        if gaps && s.chance(1, 10) {
            out.push('\n');
        }
    }
    out
}
