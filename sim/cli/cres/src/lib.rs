// The program itself, compiled as a library so that the simulator can run it
// as one process of a simulated history.
#![allow(warnings)]
include!("/repo/src/bin/main.rs");

pub fn entry() -> i32 {
    use std::process::{ExitCode, Termination};
    if main().report() == ExitCode::SUCCESS { 0 } else { 1 }
}
