//! Programs that rely on the job macro. They are type checked and analysed, never run.
#![allow(dead_code, unused_variables, unused_mut)]
use aj::job;
use aj::BackgroundJob;
use serde::{Deserialize, Serialize};

/// stands for what the annotated function does with its arguments
pub fn observe<A, R>(args: A) -> R {
    let _ = args;
    loop {}
}

#[job]
pub fn one(alpha: String) {
    observe(("one", alpha))
}

#[job]
pub fn three(alpha: i32, beta: i32, gamma: i32) -> i32 {
    observe(("three", alpha, beta, gamma))
}

#[job]
pub async fn later_two(beta: String, alpha: String) -> String {
    observe(("later_two", beta, alpha))
}

#[job]
pub async fn later_unit(zulu: u64, yankee: u64, x_ray: u64, whiskey: u64) {
    observe(("later_unit", zulu, yankee, x_ray, whiskey))
}

#[job]
pub fn fallible(left: Vec<u8>, right: Vec<u8>) -> Result<Vec<u8>, String> {
    observe(("fallible", left, right))
}

#[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone)]
pub struct ByHand {
    pub first: i32,
    pub second: i32,
}

#[aj::async_trait]
impl aj::Executable for ByHand {
    type Output = ();
    async fn execute(&mut self, _context: &aj::JobContext) -> Self::Output {}
}

#[job]
pub fn changes(mut count: u32, tail: Vec<u8>) -> u32 {
    observe(("changes", count, tail))
}

#[job]
pub fn zero() -> u8 {
    observe(("zero",))
}

#[job]
pub async fn later_zero() {
    observe(("later_zero",))
}

#[job]
pub fn trailing(
    north: Option<i64>,
    south: Option<i64>,
) -> Option<i64> {
    observe(("trailing", north, south))
}

/// the generated functions as a user calls them
pub async fn uses(context: aj::JobContext) -> Result<(), aj::Error> {
    let _: String = one::run(String::new()).await?;
    one::just_run(String::new());
    let _: String = three::run_with_context(1, 2, 3, context.clone()).await?;
    three::just_run_with_context(1, 2, 3, context.clone());
    let _: String = later_two::run(String::new(), String::new()).await?;
    let _: String = zero::run().await?;
    zero::just_run();
    let _: String = later_zero::run_with_context(context.clone()).await?;
    later_zero::just_run_with_context(context.clone());
    let _: aj::Job<ByHand> = ByHand { first: 1, second: 2 }.job();
    let _: &'static str = ByHand::queue_name();
    Ok(())
}
