use super::*;
use super::helper::PreprocessorHelper;
use actix::sched;
use actix::vx;
// what the workers and the manager handle, in order: (column, or 1000 + column for results, 9000 for the end)
static mut LOG: Vec<usize> = Vec::new();
fn log() -> &'static mut Vec<usize> {
    unsafe { &mut *std::ptr::addr_of_mut!(LOG) }
}
fn work(h: &mut PreprocessorHelper, m: PreprocessColumnMessage, c: &mut actix::SyncContext<PreprocessorHelper>) {
    log().push(m.column);
    h.handle(m, c);
}
fn done(h: &mut DataManager, m: ProcessedColumnMessage, c: &mut actix::Context<DataManager>) {
    log().push(1000 + m.column);
    h.handle(m, c);
}
fn end(h: &mut DataManager, m: PreprocessingDoneMessage, c: &mut actix::Context<DataManager>) {
    log().push(9000);
    h.handle(m, c);
}
pub(crate) fn watch() {
    log().clear();
    sched::stub::<PreprocessorHelper, PreprocessColumnMessage>(work);
    sched::stub::<DataManager, ProcessedColumnMessage>(done);
    sched::stub::<DataManager, PreprocessingDoneMessage>(end);
}
pub(crate) fn verify(cols: usize) {
    for c in 0..cols {
        vx::check(log().iter().filter(|x| **x == c).count() == 1, 2);
        vx::check(log().iter().filter(|x| **x == 1000 + c).count() == 1, 3);
    }
    vx::check(log().iter().all(|x| *x == 9000 || *x < cols || (*x >= 1000 && *x < 1000 + cols)), 2);
    vx::check(log().iter().filter(|x| **x == 9000).count() == 1, 4);
    vx::check(log().last() == Some(&9000), 4);
}
