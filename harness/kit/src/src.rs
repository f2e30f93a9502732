//! The generator engine: every random decision of a case is one entry of a recorded choice
//! sequence, so any generator written against [`Src`] can be replayed, shrunk (by editing the
//! sequence) and driven by a coverage-guided fuzzer (bytes decode to choices).

/// SplitMix64 / xoshiro256** - small, seedable, no dependencies.
#[derive(Clone)]
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed;
        let mut next = || {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            x ^ (x >> 31)
        };
        Rng([next(), next(), next(), next()])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
    Bytes(Vec<u8>),
}

pub struct Src {
    mode: Mode,
    pos: usize,
    rec: Vec<u64>,
    spans: Vec<(usize, usize)>,
    /// 1..=100: how big collections should get (random mode ramps it up).
    pub size: usize,
}

impl Src {
    pub fn random(seed: u64, size: usize) -> Src {
        Src { mode: Mode::Random(Rng::new(seed)), pos: 0, rec: vec![], spans: vec![], size }
    }
    pub fn replay(choices: Vec<u64>, size: usize) -> Src {
        Src { mode: Mode::Replay(choices), pos: 0, rec: vec![], spans: vec![], size }
    }
    pub fn bytes(b: &[u8], size: usize) -> Src {
        Src { mode: Mode::Bytes(b.to_vec()), pos: 0, rec: vec![], spans: vec![], size }
    }
    pub fn into_record(self) -> (Vec<u64>, Vec<(usize, usize)>) {
        (self.rec, self.spans)
    }

    /// A value in `0..n`; 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.mode {
            Mode::Random(r) => r.below(n),
            Mode::Replay(c) => c.get(self.pos).copied().unwrap_or(0).min(n - 1),
            Mode::Bytes(b) => {
                let k = if n <= 256 { 1 } else if n <= 65536 { 2 } else { 8 };
                let mut v = 0u64;
                for i in 0..k {
                    v = v << 8 | b.get(self.pos + i).copied().unwrap_or(0) as u64;
                }
                self.pos += k - 1;
                v % n
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        match self.below(3) {
            0 => self.below(256),
            1 => self.below(1 << 32),
            _ => self.below(u64::MAX),
        }
    }
    /// `lo..=hi`, shrinking towards `lo`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// True with probability `num/den`; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// Index into weights; index 0 is the simplest.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// Mark the choices made by `f` as one unit the shrinker may delete.
    pub fn span<T>(&mut self, f: impl FnOnce(&mut Src) -> T) -> T {
        let a = self.rec.len();
        let r = f(self);
        let b = self.rec.len();
        if b > a {
            self.spans.push((a, b));
        }
        r
    }
    /// Between `min` and `max` elements; the expected number grows with `size`.
    pub fn vec<T>(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let mut out = Vec::new();
        let room = (max - min).max(1) as u64;
        let mean = (room / 2).min(1 + room * self.size as u64 / 120).max(1);
        loop {
            if out.len() >= max {
                break;
            }
            let forced = out.len() < min;
            let a = self.rec.len();
            // continue with probability mean/(mean+1); the "more" choice belongs to the element's span
            if !forced && !self.chance(mean, mean + 1) {
                break;
            }
            out.push(f(self));
            let b = self.rec.len();
            self.spans.push((a, b));
        }
        out
    }
    /// `n` raw bytes produced from few choices: a filler kind, so big payloads stay cheap to
    /// record and shrink.
    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        match self.below(5) {
            0 => vec![b'a'; n],
            4 => self.text(n).into_bytes(),
            1 => {
                let k = self.byte();
                (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(k)).collect()
            }
            2 => {
                let s = self.below(1 << 32);
                let mut r = Rng::new(s);
                (0..n).map(|_| r.next() as u8).collect()
            }
            _ => {
                let m = n.min(64);
                let head: Vec<u8> = (0..m).map(|_| self.byte()).collect();
                (0..n).map(|i| head[i % m.max(1)]).collect()
            }
        }
    }
    /// Text of `n` bytes with what text is made of that is easily taken for something else.
    fn text(&mut self, n: usize) -> String {
        const UNITS: &[&str] = &[
            "a", " ", "word", "\r\n", "\n", "\r", "\t", "\r\n\r\n", "é", "e\u{301}", "漢", "😀", "\u{feff}", "\u{a0}", "\u{2028}", "\0", "a=b&c=%20+d", "{\"a\":1}", "<p>", "&amp;", "0\r\n\r\n", "5\r\nhello\r\n",
            "HTTP/1.1 200 OK\r\n", "GET / HTTP/1.1\r\n", "Content-Length: 3\r\n", "--x\r\n", "\\", "%", "\u{fffd}", "\u{85}", "\u{10ffff}",
        ];
        let units: Vec<&str> = (0..16.min(n)).map(|_| *self.pick(UNITS)).collect();
        let mut t = String::new();
        for u in units.iter().cycle() {
            if t.len() + u.len() > n {
                break;
            }
            t.push_str(u)
        }
        while t.len() < n {
            t.push(' ')
        }
        t
    }
    pub fn string(&mut self, min: usize, max: usize, alphabet: &[char]) -> String {
        self.vec(min, max, |s| *s.pick(alphabet)).into_iter().collect()
    }
}

/// Shrink a failing choice sequence.  `fails` rebuilds and re-runs the case; it returns true when
/// the case still fails.  Work-bounded (`budget` re-runs), so deterministic.
pub fn shrink(
    start: Vec<u64>,
    spans: Vec<(usize, usize)>,
    budget: usize,
    mut fails: impl FnMut(&[u64]) -> Option<(Vec<u64>, Vec<(usize, usize)>)>,
) -> Vec<u64> {
    let mut best = start;
    let mut spans = spans;
    let mut left = budget;
    let mut improved = true;
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if left == 0 {
                false
            } else {
                left -= 1;
                match fails(&cand) {
                    Some((rec, sp)) if (rec.len(), &rec) < (best.len(), &best) => {
                        best = rec;
                        spans = sp;
                        true
                    }
                    _ => false,
                }
            }
        }};
    }
    while improved && left > 0 {
        improved = false;
        // whole spans, biggest first
        let mut i = 0;
        loop {
            let mut sp = spans.clone();
            sp.sort_by_key(|(a, b)| (std::cmp::Reverse(b - a), *a));
            sp.dedup();
            if i >= sp.len() || left == 0 {
                break;
            }
            let (a, b) = sp[i];
            if b <= best.len() {
                let mut c = best.clone();
                c.drain(a..b);
                if attempt!(c) {
                    improved = true;
                    continue;
                }
            }
            i += 1;
        }
        // blocks
        for k in [16usize, 8, 4, 2, 1] {
            let mut i = best.len();
            while i >= k {
                let mut c = best.clone();
                c.drain(i - k..i);
                if attempt!(c) {
                    improved = true;
                    i = i.min(best.len() + 1);
                }
                i -= 1;
                if left == 0 {
                    break;
                }
            }
        }
        // zero spans and minimise single values
        for (a, b) in spans.clone() {
            if b <= best.len() && best[a..b].iter().any(|v| *v != 0) {
                let mut c = best.clone();
                c[a..b].iter_mut().for_each(|v| *v = 0);
                if attempt!(c) {
                    improved = true;
                }
            }
        }
        let mut i = 0;
        while i < best.len() && left > 0 {
            let v = best[i];
            if v > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if attempt!(c) {
                    improved = true;
                } else {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while hi - lo > 1 && left > 0 && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt!(c) {
                            improved = true;
                            if i >= best.len() {
                                break;
                            }
                            hi = best[i].min(mid);
                            if hi <= lo {
                                break;
                            }
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    best
}
