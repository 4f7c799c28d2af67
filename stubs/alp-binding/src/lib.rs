//! Stand-in for the `alp-binding` crate: the C++ ALP sources (a git submodule) are not present in
//! this sandbox, so the codec itself cannot be built. This stub keeps the same API with a
//! deliberately simple, self-checking encoding, so that everything *around* the codec (chunking,
//! buffering, framing, the chunk reader, the queries) is exercised for the `ffi_alp` scheme too.
//!
//! Encoding: magic u32, count u64, then count little-endian f64 XOR a fixed mask, then a checksum.

pub const VECTOR_SIZE: usize = 1024;
const MAGIC: u32 = 0xA1B2_57AB;
const MASK: u64 = 0x5aa5_1234_dead_beef;

pub fn worst_case_compression_size_double(n_tuple: usize) -> usize {
    20 + n_tuple * 8
}

pub fn compress_double(input: &[f64], buffer: &mut Vec<u8>) {
    buffer.clear();
    buffer.reserve(worst_case_compression_size_double(input.len()));
    buffer.extend_from_slice(&MAGIC.to_le_bytes());
    buffer.extend_from_slice(&(input.len() as u64).to_le_bytes());
    let mut sum = 0u64;
    for v in input {
        let x = v.to_bits() ^ MASK;
        sum = sum.wrapping_mul(31).wrapping_add(x);
        buffer.extend_from_slice(&x.to_le_bytes());
    }
    buffer.extend_from_slice(&sum.to_le_bytes());
}

/// # Safety
/// Same contract as the real binding: `input` must hold the compressed form of
/// `number_of_records` values. The stub checks it and panics otherwise.
pub unsafe fn decompress_double(input: &[u8], number_of_records: usize, buffer: &mut Vec<f64>) {
    let word = |i: usize| u64::from_le_bytes(input[i..i + 8].try_into().unwrap());
    assert_eq!(&input[..4], MAGIC.to_le_bytes(), "alp stub: bad magic");
    assert_eq!(word(4), number_of_records as u64, "alp stub: record count");
    buffer.clear();
    buffer.reserve(number_of_records.next_multiple_of(VECTOR_SIZE));
    let mut sum = 0u64;
    for i in 0..number_of_records {
        let x = word(12 + 8 * i);
        sum = sum.wrapping_mul(31).wrapping_add(x);
        buffer.push(f64::from_bits(x ^ MASK));
    }
    assert_eq!(word(12 + 8 * number_of_records), sum, "alp stub: checksum");
}
