//! Recipes for images too large to be written out in a program
use imagequant::RGBA;
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u32 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = self.0; (((x >> 18) ^ x) >> 27) as u32 ^ (x >> 33) as u32
    }
}
pub fn gen(kind: &str, w: usize, h: usize, seed: u64, k: u32) -> Vec<RGBA> {
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xabcdef);
    match kind {
        // smooth gradient with a little texture
        "grad" => (0..w * h).map(|n| {
            let (x, y) = (n % w, n / w);
            RGBA::new((x * 255 / w.max(2)) as u8, (y * 255 / h.max(2)) as u8, ((x + y) * 128 / (w + h) + (seed % 100) as usize) as u8, 255)
        }).collect(),
        // gradient including alpha
        "agrad" => (0..w * h).map(|n| {
            let (x, y) = (n % w, n / w);
            RGBA::new((x * 255 / w.max(2)) as u8, (y * 255 / h.max(2)) as u8, (seed * 37 % 256) as u8, ((x ^ y) % 256) as u8)
        }).collect(),
        // k random colors placed at random
        "noise" => {
            let pal: Vec<RGBA> = (0..k.max(1)).map(|_| { let v = r.next(); RGBA::new(v as u8, (v >> 8) as u8, (v >> 16) as u8, 255) }).collect();
            (0..w * h).map(|_| pal[r.next() as usize % pal.len()]).collect()
        },
        // fully random pixels
        "rand" => (0..w * h).map(|_| { let v = r.next(); RGBA::new(v as u8, (v >> 8) as u8, (v >> 16) as u8, 255) }).collect(),
        // k flat horizontal bands with random colors
        "bands" => {
            let pal: Vec<RGBA> = (0..k.max(1)).map(|_| { let v = r.next(); RGBA::new(v as u8, (v >> 8) as u8, (v >> 16) as u8, 255) }).collect();
            (0..w * h).map(|n| pal[(n / w) * pal.len() / h]).collect()
        },
        // single color
        "flat" => { let c = RGBA::new(k as u8, (k >> 8) as u8, (k >> 16) as u8, 255); vec![c; w * h] },
        // k distinct gray-ish colors, in order
        "many" => (0..w * h).map(|n| { let v = (n as u32) % k.max(1); RGBA::new(v as u8, (v >> 8) as u8, (v >> 4) as u8, 255) }).collect(),
        _ => panic!("unknown recipe {kind}"),
    }
}
