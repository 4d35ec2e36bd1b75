//! Nonces as verifier instances draw them from their random sources, over restarts and with clocks that jump (C25).

use crate::core::*;
use crate::world::*;
use openid4vp::core::authorization_request::parameters::Nonce;
use rand::{Error, RngCore};

/// A random source: a stream that its seed determines; the first bytes may be those of another stream.
#[derive(Clone)]
pub struct SimRng {
    seed: u64,
    other: (u64, u64),
    at: u64,
    narrow: bool,
}
impl SimRng {
    pub fn new() -> Self {
        let seed = ((draw(1 << 30) as u64) << 30) | draw(1 << 30) as u64;
        SimRng { seed, other: (0, 0), at: 0, narrow: chance(200) }
    }
    fn byte(&mut self) -> u8 {
        let s = if self.at < self.other.0 { self.other.1 } else { self.seed };
        let mut z = s.wrapping_add((self.at / 8 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15));
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        let b = z.to_le_bytes()[(self.at % 8) as usize];
        self.at += 1;
        b
    }
}
impl RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        // Some sources make words out of larger ones.
        if self.narrow {
            return (self.next_u64() >> 32) as u32;
        }
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest {
            *d = self.byte()
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

#[derive(Default)]
pub struct Nonces {
    /// Each with the source before it was drawn.
    drawn: Vec<(SimRng, usize, String)>,
    count: Vec<u32>,
    total: u32,
}

fn bad(key: &str, msg: String) {
    violation(&["C25"], key, msg);
}

/// The next nonce of a source.
pub fn next(rng: &mut SimRng, len: usize) -> String {
    let before = rng.clone();
    let n = Nonce::random(rng, len).to_string();
    probe("nonces");
    if n.chars().count() != len {
        bad("nonce-length", format!("a nonce of length {len} was asked for, but it is {n:?}"));
    }
    if !n.chars().all(|c| c.is_ascii_alphanumeric()) {
        bad("nonce-characters", format!("nonce {n:?}"));
    }
    if rng.at == before.at && len > 0 {
        bad("nonce-source", "the random source was not used".into());
    }
    // Nothing but the source counts: neither who asks, nor when, nor what was asked before.
    let old = w(|w| (!w.nonces.drawn.is_empty()).then(|| w.nonces.drawn[draw(w.nonces.drawn.len() as u32) as usize].clone()));
    if let Some((mut r, l, want)) = old {
        let got = Nonce::random(&mut r, l).to_string();
        if got != want {
            bad("nonce-not-of-source", format!("a source in the same state gave {want:?} before and {got:?} now"));
        }
    }
    // A source that first gives the same four bytes and then others.
    if len >= 16 {
        let mut twin = before.clone();
        twin.seed ^= 0x5555_0000_1111;
        twin.other = (before.at + 4, before.seed);
        if before.other.0 <= before.at && Nonce::random(&mut twin, len).to_string() == n {
            bad("nonce-entropy", format!("only the first four bytes of the source decide on nonce {n:?}"));
        }
        let again = w(|w| w.nonces.drawn.iter().any(|x| x.2 == n && x.1 >= 16));
        if again {
            bad("nonce-repeated", format!("nonce {n:?} was drawn twice"));
        }
    }
    w(|w| {
        w.nonces.count.resize(128, 0);
        for b in n.bytes().take(200) {
            w.nonces.count[(b & 127) as usize] += 1;
            w.nonces.total += 1;
        }
        w.nonces.drawn.push((before, len, n.clone()));
    });
    n
}

/// An instance that draws nonces; after a restart its source is another one.
pub async fn drawing() {
    let mut rng = SimRng::new();
    for _ in 0..1 + draw(30) {
        let len = pick(&[16usize, 32, 1, 0, 8, 22, 43, 64, 128, 5, 16, 32, 255, 256, 1000]);
        next(&mut rng, len);
        if chance(50) {
            rng = SimRng::new();
        }
        if chance(300) {
            sleep(draw(40) as u64).await
        } else {
            yield_now().await
        }
    }
}

/// At the end: no letter or digit is left out or preferred.
pub fn check_all() {
    let d = w(|w| {
        let n = &w.nonces;
        if n.total < 12_000 {
            return None;
        }
        let want = n.total as f64 / 62.0;
        (0..128u8)
            .filter(|b| b.is_ascii_alphanumeric())
            .map(|b| (b as char, n.count[b as usize] as f64 / want))
            .find(|x| x.1 < 0.4 || x.1 > 1.9)
    });
    if let Some((c, f)) = d {
        bad("nonce-distribution", format!("{c:?} is {f:.2} times as frequent as it should be"));
    }
}
