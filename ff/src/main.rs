//! C23-C26: the command line tool (both builds) and the ffmpeg decoder.
#![allow(dead_code)]
mod cli;
#[path = "../../seq/src/common.rs"]
mod common;
mod ff;
#[path = "../../seq/src/frames.rs"]
mod frames;
#[path = "../../seq/src/harness.rs"]
mod harness;
#[path = "../../seq/src/refm.rs"]
mod refm;
#[path = "../../seq/src/video.rs"]
mod video;
#[path = "../../seq/src/y4m.rs"]
mod y4m;
use harness::Spec;

const SPECS: &[Spec] = &[
    Spec { id: "C23", level: "model_checking", rule: "all histories of next and frame(k) reads up to the depth on clips of every length up to the bound, each replayed on the real decoders (y4m, ffmpeg, a user type) next to the position model; states = distinct (decoder, length, position, operation)", assumptions: &[], f: ff::c23 },
    Spec { id: "C24", level: "exploration", rule: "all subsets of outputs x quiet x metric x ordered lists of compared files up to the bound, terminal/pipe x --frames, file names, list lengths across the buffer size, both builds of the tool; distinct = distinct (configuration, reports)", assumptions: &["the oracle is the library on the same files"], f: cli::c24 },
    Spec { id: "C25", level: "fault_enumeration", rule: "every kind of unusable input at every position x outputs x metric, every kind of unusable output per report, a write failure after every byte of every report, inputs truncated at every byte; both builds of the tool", assumptions: &["a full disk is a short write followed by EFBIG (RLIMIT_FSIZE) or ENOSPC (/dev/full)"], f: cli::c25 },
    Spec { id: "C26", level: "exploration", rule: "all codecs x containers x pixel formats x sizes x picture counts x GOP lengths x B-frame counts x audio arrangements of the tables, every small size, every pair of sizes and formats joined into one stream, every truncation and every failing read of small files; each stream is compared with an independent decoding loop", assumptions: &["libavcodec's own decoders and encoders are correct"], f: ff::c26 },
];
fn main() {
    harness::main(SPECS)
}
