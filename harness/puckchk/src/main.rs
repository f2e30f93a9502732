mod e2e;
mod gen;
mod io;
mod request;
mod response;
mod router;
mod sched;
mod server;
mod ws;

#[global_allocator]
static ALLOC: kit::alloc::Counting = kit::alloc::Counting;

fn main() {
    lunatic::sim::install_panic_hook();
    let mut props = vec![];
    props.extend(request::props());
    props.extend(response::props());
    props.extend(router::props());
    props.extend(server::props());
    props.extend(ws::props());
    props.extend(e2e::props());
    kit::main_with(props)
}
