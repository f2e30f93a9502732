mod diff;
mod html;
mod live;
mod page;
#[path = "../../../harness/puckchk/src/sched.rs"]
mod sched;
mod tree;
mod wire;

#[global_allocator]
static ALLOC: kit::alloc::Counting = kit::alloc::Counting;

fn main() {
    lunatic::sim::install_panic_hook();
    let mut props = vec![];
    props.extend(diff::props());
    props.extend(live::props());
    props.extend(html::props());
    kit::main_with(props)
}
