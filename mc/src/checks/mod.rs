//! The case spaces of every property.
mod avail;
mod derive;
pub mod enumer;
pub mod features;
pub mod foreign;
mod influence;
#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
mod native;
pub mod purity;
mod render;
#[cfg(feature = "display")]
mod report;
pub mod robust;
#[cfg(feature = "serialize")]
mod serial;
#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
mod threads;
mod values;

use crate::engine::*;
use crate::out::*;
use crate::spaces::*;

pub fn spaces(prop: &str, t: bool) -> Vec<Space> {
    match prop {
        "C01" => avail::c01(t),
        "C02" => influence::c02(t),
        "C03" => robust::c03(t),
        "C04" => purity::c04(t),
        "C05" => avail::c05(t),
        "C06" => fields(C06, &groups_with(C06), t),
        "C07" => fields(C07, &groups_with(C07), t),
        "C08" => fields(C08, &groups_with(C08), t),
        "C09" => fields(C09, &groups_with(C09), t),
        "C10" => derive::c10(t),
        "C11" => enumer::c11(t),
        "C12" => enumer::c12(t),
        "C13" => enumer::c13(t),
        "C14" => enumer::c14(t),
        "C15" => enumer::c15(t),
        "C16" => enumer::c16(t),
        "C17" => enumer::c17(t),
        "C18" => enumer::c18(t),
        "C19" => enumer::c19(t),
        "C20" => derive::c20(t),
        "C21" => derive::c21(t),
        "C22" => render::c22(t),
        "C26" => features::c26(t),
        #[cfg(feature = "serialize")]
        "C25" => serial::c25(t),
        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
        "C27" => native::c27(t),
        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
        "C28" => threads::c28(t),
        "C33" => features::c33(t),
        "C30" => values::c30(t),
        "C31" => values::c31(t),
        "C32" => values::c32(t),
        #[cfg(feature = "display")]
        "C23" => report::c23(t),
        #[cfg(feature = "display")]
        "C24" => report::c24(t),
        #[cfg(feature = "display")]
        "C29" => report::c29(t),
        _ => vec![],
    }
}

/// What the numbers in the evidence mean, per property.
pub fn explanation(p: &str) -> String {
    let how = match p {
        "C02" => "state = one CPU; on each, every accessor value (and rendering) of the real library is compared with the same on CPUs that differ only in what is not advertised",
        "C04" => "state = one history of queries, iterator steps, clones and renderings, or one node of the history tree; every answer is compared with the answer of a fresh handle",
        "C03" => "state = one CPU; every operation of the real library runs on it under overflow checks, a query budget and a wall-clock limit in a supervised process",
        "C22" => "state = one CPU or one iterator position; every label of every rendering is compared with the accessor of that name",
        "C23" => "state = one CPU; the printed report of the real library is compared line by line with the model's report",
        "C24" => "state = one CPU; the printed dump of the real library is compared line by line with the model's",
        "C25" => "state = one raw result or one stored dump; it is serialised, parsed, deserialised and compared",
        "C26" => "state = one CPU or batch of CPUs; digests of every value and text are compared between the four builds",
        "C28" => "state = one step of one interleaving (an execution of CPUID by one of the threads), or one nesting of operations, or one operation interrupted after every instruction; every result is compared with the operation run alone",
        "C29" => "state = one argument vector, environment and processor; exit status and output of the program are compared with the model",
        "C30" => "state = one pair of CPUs; == and != of the values of both are compared with their accessors",
        "C31" => "state = one node of the tree of iterator programs; every result is compared with plain iteration",
        "C32" => "state = one CPU; every operation runs while allocations are counted",
        "C33" => "state = one CPU or batch of CPUs; digests of every value and text of the library built for 32-bit x86 are compared with those of the 64-bit build, and the state spaces of the other checks are explored in the 32-bit build with their own models",
        "C34" => "state = one piece: all values, or all texts, of one register group or of everything on one CPU, observed on the library built for the machine and on the library built for another target and interpreted by Miri; their digests are compared",
        "C27" => "state = one (leaf, sub-leaf, processor) or one handle; compared with executing the instruction",
        _ => "state = one CPU (one answer of CPUID per leaf and sub-leaf); the model's values are computed from it and compared with the values of the real library on the same CPU",
    };
    format!("{how}. Every state of every listed space was visited (no sampling). transitions = single comparisons of a value, text or end of iteration between model (or reference execution) and library; traces_validated_against_impl = executions of the real library compared. distinct_outcomes = distinct observed results, a lower bound.")
}

pub fn assumptions(p: &str) -> Vec<String> {
    let mut v = vec!["register contents outside the listed spaces (deviations and value windows around the listed contents) are not visited".to_string()];
    match p {
        "C25" | "C26" | "C27" | "C29" => {}
        _ => v.push("the simulated CPU answers consistently: the same leaf and sub-leaf always give the same registers".into()),
    }
    match p {
        "C28" => v.push("threads are preempted where the library executes CPUID; at other instructions an interruption runs a whole operation before the interrupted one goes on (the code without writable statics has nothing else to show)".into()),
        "C27" | "C29" => v.push("the machine the check runs on is the CPU; other CPUs are not available".into()),
        "C23" | "C24" => v.push("the output goes to a terminal of 2000 columns; wrapping and alignment are not part of the property".into()),
        "C33" => v.push("the 32-bit build runs on a 64-bit processor in compatibility mode, with the standard library built from its sources".into()),
        "C34" => v.push("Miri's interpretation stands for the other targets; their code generators are not run".into()),
        "C26" => v.push("the four feature sets default, std, serialize and display stand for all combinations; cli only adds the binary".into()),
        _ => {}
    }
    v
}
