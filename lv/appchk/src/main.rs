mod chat;
mod list;
#[path = "../../lvchk/src/page.rs"]
mod page;
#[path = "../../../harness/puckchk/src/sched.rs"]
mod sched;
#[path = "../../lvchk/src/wire.rs"]
mod wire;

#[global_allocator]
static ALLOC: kit::alloc::Counting = kit::alloc::Counting;

/// A response as a client sees it: status, headers, body.
pub struct Answer {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
/// The one response in the bytes of a connection.
pub fn answer(b: &[u8]) -> Result<Answer, String> {
    let brief = || kit::clip(&String::from_utf8_lossy(b));
    let end = b.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| format!("no response: {:?}", brief()))?;
    let head = std::str::from_utf8(&b[..end]).map_err(|_| format!("the head is not text: {:?}", brief()))?;
    let mut lines = head.split("\r\n");
    let status = lines.next().unwrap_or_default();
    let status: u16 = status.strip_prefix("HTTP/1.1 ").and_then(|s| s.get(..3)).and_then(|s| s.parse().ok()).ok_or_else(|| format!("status line {:?}", status))?;
    let headers: Vec<(String, String)> = lines.filter_map(|l| l.split_once(':')).map(|(k, v)| (k.to_ascii_lowercase(), v.trim().to_string())).collect();
    let body = b[end + 4..].to_vec();
    if let Some((_, n)) = headers.iter().find(|h| h.0 == "content-length") {
        if n.parse() != Ok(body.len()) {
            return Err(format!("{} bytes of body, content-length {}", body.len(), n));
        }
    }
    Ok(Answer { status, headers, body })
}
impl Answer {
    pub fn is(&self, name: &str, has: &str) -> bool {
        self.headers.iter().any(|h| h.0 == name && h.1.contains(has))
    }
}

fn main() {
    lunatic::sim::install_panic_hook();
    kit::main_with(vec![list::prop(), chat::prop()])
}
