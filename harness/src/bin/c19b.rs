// The part of C19 that needs only the public interface; check.sh runs it when c19, which compiles the
// packing code from its source, does not build against /repo.
use harness::{run, Prop};

fn main() {
    run(Prop {
        id: "C19",
        rule: "A case is a chunk of up to 300 values compressed by the fixed-point scheme at one of 13 precisions. Oracle: an independent description of the chunk's bytes (exact scaling by a power of two, truncation, byte columns, remaining bits). Non-trivial: several values that are not all equal. Distinct: by the hash of all choices drawn.",
        assumptions: &["the packing code could not be compiled on its own, so only whole chunks are examined"],
        quick_cases: 1_500_000,
        thorough_cases: 10_000_000,
        case_timeout_s: 30,
        check: harness::data::check_buff_chunk,
    })
}
