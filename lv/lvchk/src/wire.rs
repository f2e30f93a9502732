//! WebSocket frames as the browser writes and reads them.
pub fn frame(b0: u8, mask: Option<[u8; 4]>, payload: &[u8]) -> Vec<u8> {
    let mut out = vec![b0];
    let m = if mask.is_some() { 0x80 } else { 0 };
    let n = payload.len();
    if n < 126 {
        out.push(m | n as u8)
    } else if n < 65536 {
        out.push(m | 126);
        out.extend((n as u16).to_be_bytes());
    } else {
        out.push(m | 127);
        out.extend((n as u64).to_be_bytes());
    }
    match mask {
        Some(k) => {
            out.extend(k);
            out.extend(payload.iter().enumerate().map(|(i, b)| b ^ k[i % 4]))
        }
        None => out.extend(payload),
    }
    out
}
pub fn text(s: &str) -> Vec<u8> {
    frame(0x81, Some([0x37, 0xfa, 0x21, 0x3d]), s.as_bytes())
}

/// The frames of a server: opcode and payload; the rest that is no whole frame.
pub fn parse(b: &[u8]) -> Result<(Vec<(u8, Vec<u8>)>, usize), String> {
    let mut v = vec![];
    let mut at = 0;
    loop {
        let r = &b[at..];
        if r.len() < 2 {
            return Ok((v, at));
        }
        if r[0] & 0xf0 != 0x80 || r[1] & 0x80 != 0 {
            return Err(format!("the server's bytes at {} are no unmasked final frame: {:02x?}", at, &r[..r.len().min(16)]));
        }
        let (head, n) = match r[1] {
            126 if r.len() >= 4 => (4, u16::from_be_bytes([r[2], r[3]]) as usize),
            127 if r.len() >= 10 => (10, u64::from_be_bytes(r[2..10].try_into().unwrap()) as usize),
            126 | 127 => return Ok((v, at)),
            n => (2, n as usize),
        };
        if r.len() < head + n {
            return Ok((v, at));
        }
        v.push((r[0] & 15, r[head..head + n].to_vec()));
        at += head + n;
    }
}

/// The text messages of a server, read as they come.
#[derive(Default)]
pub struct Texts {
    at: usize,
    looked: usize,
    texts: std::rc::Rc<Vec<String>>,
}
impl Texts {
    pub fn update(&mut self, sim: &lunatic::sim::Sim, conn: lunatic::sim::ConnId, from: usize) -> Result<std::rc::Rc<Vec<String>>, String> {
        let n = sim.output_len(conn);
        if n > self.looked {
            self.looked = n;
            self.at = self.at.max(from);
            let (frames, used) = parse(&sim.output_from(conn, self.at))?;
            self.at += used;
            let texts = std::rc::Rc::make_mut(&mut self.texts);
            for f in frames.into_iter().filter(|f| f.0 == 1) {
                texts.push(String::from_utf8(f.1).map_err(|_| "a text message that is not UTF-8".to_string())?)
            }
        }
        Ok(self.texts.clone())
    }
}
