PA = "src/core/authorization_request/parameters.rs"
BUGS = []
def bug(**k): BUGS.append(k)
OLD = """        Self(Alphanumeric.sample_string(rng, length))
"""

bug(id="c25-seeded-by-a-word", prop="C25",
 needs="random sources that agree in the first 32 bits, which happens after some ten thousand nonces",
 breaks="nonces have 32 bits of randomness and repeat",
 edits=[(PA, OLD, """        use rand::SeedableRng;
        let mut rng = rand::rngs::StdRng::seed_from_u64(rng.gen::<u32>().into());
        Self(Alphanumeric.sample_string(&mut rng, length))
""")],
 demo="""
struct Two(u64, u64);
impl rand::RngCore for Two {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 {
        self.0 += 1;
        if self.0 == 1 { 42 } else { self.0.wrapping_mul(self.1) }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8 } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
#[test]
fn demo() {
    use openid4vp::core::authorization_request::parameters::Nonce;
    let a = Nonce::random(&mut Two(0, 0x9E3779B97F4A7C15), 32).to_string();
    let b = Nonce::random(&mut Two(0, 0xBF58476D1CE4E5B9), 32).to_string();
    assert_ne!(a, b);
}
""")

bug(id="c25-time-prefix", prop="C25",
 needs="two nonces drawn from a source in the same state at different times (a restored virtual machine)",
 breaks="long nonces start with the time and do not depend on their source alone; fewer characters are random",
 edits=[(PA, OLD, """        let mut nonce = Alphanumeric.sample_string(rng, length);
        if length >= 32 {
            // Sortable in logs.
            let now = std::time::SystemTime::now()
                .duration_since(std::time::UNIX_EPOCH)
                .map_or(0, |d| d.as_secs());
            nonce.replace_range(..8, &format!("{:08x}", now as u32));
        }
        Self(nonce)
""")],
 demo="""
#[test]
fn demo() {
    use openid4vp::core::authorization_request::parameters::Nonce;
    use rand::SeedableRng;
    let n = |s: u64| Nonce::random(&mut rand::rngs::StdRng::seed_from_u64(s), 32).to_string();
    assert_ne!(n(1)[..6], n(2)[..6]);
}
""")

bug(id="c25-length-in-bytes", prop="C25",
 needs="a nonce of an odd length, or one longer than 128",
 breaks="the nonce has another length than asked for",
 edits=[(PA, OLD, """        if length <= 128 {
            return Self(Alphanumeric.sample_string(rng, length));
        }
        let bytes: Vec<u8> = (0..length / 2).map(|_| rng.gen()).collect();
        Self(bytes.iter().map(|b| format!("{b:02x}")).collect())
""")],
 demo="""
#[test]
fn demo() {
    use openid4vp::core::authorization_request::parameters::Nonce;
    assert_eq!(Nonce::random(&mut rand::thread_rng(), 255).to_string().len(), 255);
    let n = Nonce::random(&mut rand::thread_rng(), 1000).to_string();
    assert!(n.chars().any(|c| c > 'f'));
}
""")
