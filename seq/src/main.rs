mod asan;
mod common;
mod frames;
mod harness;
mod refm;
mod video;
mod y4m;
use common::*;
use harness::Spec;

const DEP: &str = "sample depths 8, 10 and 12 bit, the depths the decoders deliver";
const SPECS: &[Spec] = &[
    Spec { id: "C07", level: "exploration", rule: "all ordered pairs of frame/clip formats from the format alphabet, x metric x sample type x declared depth; each pair is one distinct case", assumptions: &[DEP], f: |r| { frames::c07(r); video::c07(r) } },
    Spec { id: "C08", level: "exploration", rule: "all memory layouts x padding contents x picture contents x sizes x formats x metrics, each compared with the padding-free layout; distinct = distinct (score, layout, padding) triples", assumptions: &[DEP], f: frames::c08 },
    Spec { id: "C09", level: "exploration", rule: "all value pairs (8 bit), all sizes up to the bound, all single-sample differences; compared with the exact integer SSE model; distinct = distinct expected scores other than 100", assumptions: &[DEP], f: frames::c09 },
    Spec { id: "C11", level: "exploration", rule: "all plane sizes up to the bound plus tall planes whose window has an extent, x depths x content pairs, and all single-sample perturbations of small planes, compared with an exact-integer reference; distinct = distinct expected non-trivial scores", assumptions: &[DEP, "the window weights are the Gaussian quantised to 1/256"], f: frames::c11 },
    Spec { id: "C12", level: "exploration", rule: "all plane sizes up to the bound x depths x content pairs and all single-sample perturbations, compared with an exact-integer reference; distinct = distinct expected non-trivial scores", assumptions: &[DEP, "negative contrast-structure factors count as 0"], f: frames::c12 },
    Spec { id: "C13", level: "exploration", rule: "all plane sizes up to the bound x depths x content pairs, all single-sample perturbations, all pairs of DCT basis pictures in each plane; compared with a reference; distinct = distinct expected non-zero errors", assumptions: &[DEP, "the transform is daala's integer 8x8 DCT (re-implemented, validated against the textbook DCT)"], f: frames::c13 },
    Spec { id: "C14", level: "exploration", rule: "colour grid x partner colours, all gray and chroma levels, all widths/heights x formats with every single-sample difference; compared with an f64 CIEDE2000; distinct = distinct expected differences", assumptions: &[DEP, "approximation accuracy: |mean delta E error| <= 0.004 + 0.2 %"], f: frames::c14 },
    Spec { id: "C15", level: "exploration", rule: "all widths x depths x formats x contents, every single-sample difference in every lane, every value of every component, a fixed lattice of colour pairs; vector against scalar; distinct = distinct scalar scores per shape", assumptions: &[DEP, "the machine has AVX2 (otherwise both paths are the scalar one)"], f: frames::c15 },
    Spec { id: "C16", level: "exploration", rule: "all pairs of content patterns x sizes x formats x depths x metrics, identity on a family of textures and colours; distinct = distinct scores", assumptions: &[DEP], f: |r| { frames::c16(r); video::c16(r) } },
    Spec { id: "C17", level: "exploration", rule: "all unordered pairs of content patterns x sizes x formats x depths x metrics and one-plane variants, both orders; distinct = distinct scores", assumptions: &[DEP], f: |r| { frames::c17(r); video::c17(r) } },
    Spec { id: "C18", level: "exploration", rule: "all combinations of four content pairs per plane x sizes x formats x depths x planar metrics; distinct = distinct scores", assumptions: &[DEP], f: |r| { frames::c18(r); video::c18(r) } },
    Spec { id: "C10", level: "exploration", rule: "all sequences of frame pairs over the pair alphabet up to the length bound x formats x depths x metrics, compared with the aggregate of reference frame values; distinct = distinct scores", assumptions: &[DEP], f: video::c10 },
    Spec { id: "C20", level: "exploration", rule: "all picture sizes up to the bound x all y4m colour spaces x frame counts x header and marker variants; each stream is one distinct case", assumptions: &[], f: y4m::c20 },
    Spec { id: "C21", level: "exploration", rule: "all plane widths up to the bound x heights x source strides x plane layouts x sitings x depths x contents, impulses at every position, all short rows over four levels, every level; distinct = distinct inputs", assumptions: &[DEP], f: y4m::c21 },
    Spec { id: "C22", level: "fault_enumeration", rule: "every truncation and every single-byte replacement (all 256 values in headers and markers, an alphabet in samples) of small streams of every colour space; each damaged stream is one case", assumptions: &["corruption of one byte at a time"], f: y4m::c22 },
    Spec { id: "C27", level: "exploration", rule: "every split of small streams into two pieces (thorough: three) and every fixed piece size, each piece delivered only after the previous one was read; each split is one case", assumptions: &["a pipe delivers what was written to it in order"], f: y4m::c27 },
    Spec { id: "C28", level: "exploration", rule: "every width, height, layout, format and depth for every metric, every pair of small sizes in every plane, and the enumerations of C07, C08, C10, C11, C13, C15 and C20-C23, all with byte-exact monitoring of every memory access; distinct = distinct cases", assumptions: &[DEP, "the standard library and v_frame's generated code are monitored as compiled into the harness"], f: asan::c28 },
];


fn main() {
    if std::env::args().nth(1).as_deref() == Some("stdin-child") {
        install_panic_hook();
        return y4m::stdin_child();
    }
    if std::env::args().nth(1).as_deref() == Some("asan-child") {
        return asan::child();
    }
    harness::main(SPECS)
}
