use crate::json::*;
use imagequant::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub struct Px { pub w: usize, pub h: usize, pub data: Vec<RGBA> }

struct Img { img: Image<'static>, px: Arc<Px>, bg: Option<Arc<Px>>, calls: Arc<(AtomicUsize, AtomicUsize)> }

#[derive(Default)]
struct Rec { prog: Vec<(i32, bool)>, logs: Vec<(String, char)> }

struct ProgMode { mode: String, k: AtomicI64 }

#[derive(Default)]
struct Ctx {
    px: HashMap<String, Arc<Px>>,
    maps: HashMap<String, Vec<u8>>,
    a: BTreeMap<String, Attributes>,
    i: BTreeMap<String, Img>,
    h: BTreeMap<String, Histogram>,
    r: BTreeMap<String, QuantizationResult>,
    rec: Arc<Mutex<Rec>>,
    /// palettes are read from the objects themselves, which finalizes them
    direct: bool,
}

pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" { return Vec::new(); }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[i * 2..i * 2 + 2], 16).unwrap()).collect()
}
pub fn rgba(s: &str) -> RGBA { let v = unhex(s); RGBA::new(v[0], v[1], v[2], v[3]) }
fn st<T>(r: &Result<T, Error>) -> String { match r { Ok(_) => "Ok".into(), Err(e) => format!("{e:?}") } }
pub fn f(s: &str) -> f64 { match s { "nan" => f64::NAN, "inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, s => s.parse().unwrap() } }

pub fn pxdef(t: &[&str]) -> (String, Px) {
    let (w, h): (usize, usize) = (t[2].parse().unwrap(), t[3].parse().unwrap());
    let data: Vec<RGBA> = if t[0] == "px" {
        unhex(t[4]).chunks(4).map(|c| RGBA::new(c[0], c[1], c[2], c[3])).collect()
    } else {
        crate::gen::gen(t[4], w, h, t[5].parse().unwrap(), t[6].parse().unwrap())
    };
    (t[1].to_string(), Px { w, h, data })
}
/// Describes pixels for the specification
pub fn px_event(name: &str, p: &Px) -> String {
    let mut m: BTreeMap<[u8; 4], usize> = BTreeMap::new();
    for c in &p.data { *m.entry([c.r, c.g, c.b, c.a]).or_default() += 1; }
    let dig = digest(unsafe { std::slice::from_raw_parts(p.data.as_ptr().cast(), p.data.len() * 4) });
    let small = p.data.len() <= 1100;
    format!("{{\"op\":\"px\",\"name\":{},\"w\":{},\"h\":{},\"dig\":\"{}\",\"small\":{},\"px\":{},\"nc\":{},\"cols\":{}}}", s(name), p.w, p.h, dig, small,
        if small { cols(&p.data) } else { "[]".into() }, m.len(),
        if m.len() <= 4096 { list(m.iter().map(|(k, n)| format!("[{},{},{},{},{}]", k[0], k[1], k[2], k[3], n))) } else { "[]".into() })
}
pub fn raw_wanted() -> bool { std::env::var_os("LIQDRV_RAW").is_some() }
/// Groups pixels of remapped image by (source color, background color, index)
pub fn groups(px: &Px, bg: Option<&Px>, idx: &[u8]) -> (String, bool) {
    let mut m: BTreeMap<([u8; 4], [u8; 4], u8), usize> = BTreeMap::new();
    for (n, &ix) in idx.iter().enumerate() {
        let c = px.data[n];
        let b = bg.map_or([0; 4], |b| { let c = b.data[n]; [c.r, c.g, c.b, c.a] });
        *m.entry(([c.r, c.g, c.b, c.a], b, ix)).or_default() += 1;
    }
    let full = m.len() <= 6000;
    let step = if full { 1 } else { m.len() / 3000 + 1 };
    (list(m.iter().step_by(step).map(|((c, b, i), n)| format!("[{},{},{},{},{},{},{},{},{},{}]", c[0], c[1], c[2], c[3], b[0], b[1], b[2], b[3], i, n))), full)
}

impl Ctx {
    fn gets(&self) -> String {
        list(self.a.iter().map(|(k, a)| { let q = a.quality(); format!("[{},{},{},{},{},{}]", s(k), a.max_colors(), q.0, q.1, a.speed(), a.min_posterization()) }))
    }
    fn rec_json(&self) -> String {
        let r = std::mem::take(&mut *self.rec.lock().unwrap());
        format!("\"prog\":{},\"logs\":{}", list(r.prog.iter().map(|(p, b)| format!("[{},{}]", p, *b as u8))), list(r.logs.iter().map(|(t, k)| format!("[{},\"{}\"]", s(t), k))))
    }
    /// palette is read from a copy, to observe without changing the state (except in direct mode)
    fn robs(r: &mut QuantizationResult, direct: bool) -> String {
        let mut copy = if direct { None } else { Some(r.clone()) };
        let c = copy.as_mut().unwrap_or(r);
        let plen = c.palette_len();
        let pv = c.palette_vec();
        let same = pv == c.palette();
        format!("\"pal\":{},\"plen\":{},\"psame\":{},\"qerr\":{},\"qq\":{},\"rerr\":{},\"rq\":{},\"og\":{}", cols(&pv), plen, same,
            e4(r.quantization_error()), r.quantization_quality().map_or(-1, i32::from), e4(r.remapping_error()), r.remapping_quality().map_or(-1, i32::from), (r.output_gamma() * 1e5).round() as i64)
    }

    fn image(&self, t: &[&str]) -> Result<Img, Error> {
        // I new i a px rep gamma pad
        let px = self.px[t[4]].clone();
        let a = &self.a[t[3]];
        let (rep, gamma) = (t[5], f(t[6]));
        let pad: usize = t.get(7).map_or(0, |p| p.parse().unwrap());
        let calls = Arc::new((AtomicUsize::new(0), AtomicUsize::new(0)));
        let strided = |trim: bool| {
            let mut v = Vec::with_capacity((px.w + pad) * px.h);
            for (n, r) in px.data.chunks(px.w).enumerate() {
                v.extend_from_slice(r);
                if !(trim && n == px.h - 1) { v.extend((0..pad).map(|k| RGBA::new(13 + k as u8, 77, n as u8, 200))); }
            }
            v
        };
        let img = match rep {
            "owned" => a.new_image(px.data.clone(), px.w, px.h, gamma)?,
            "borrowed" => a.new_image_borrowed(Box::leak(px.data.clone().into_boxed_slice()), px.w, px.h, gamma)?,
            "stride" => a.new_image_stride(strided(false), px.w, px.h, px.w + pad, gamma)?,
            "stridetrim" => a.new_image_stride(strided(true), px.w, px.h, px.w + pad, gamma)?,
            "sborrowed" => Image::new_stride_borrowed(a, Box::leak(strided(false).into_boxed_slice()), px.w, px.h, px.w + pad, gamma)?,
            "sborrowedtrim" => Image::new_stride_borrowed(a, Box::leak(strided(true).into_boxed_slice()), px.w, px.h, px.w + pad, gamma)?,
            "fn" => {
                let (p, c) = (px.clone(), calls.clone());
                unsafe { Image::new_fn(a, move |row: &mut [MaybeUninit<RGBA>], y| {
                    c.0.fetch_add(1, SeqCst);
                    if y >= p.h || row.len() != p.w { c.1.fetch_add(1, SeqCst); }
                    for (d, v) in row.iter_mut().zip(&p.data[y * p.w..(y + 1) * p.w]) { d.write(*v); }
                }, px.w, px.h, gamma)? }
            },
            _ => panic!("rep {rep}"),
        };
        Ok(Img { img, px, bg: None, calls })
    }

    fn step(&mut self, l: &str) -> Option<String> {
        let t: Vec<&str> = l.split_whitespace().collect();
        let no = |op: &str| Some(format!("{{\"op\":\"skip\",\"in\":{}}}", s(op)));
        match t[0] {
            "px" | "gen" => { let (n, p) = pxdef(&t); let e = px_event(&n, &p); self.px.insert(n, Arc::new(p)); Some(e) },
            "map" | "gmap" => {
                let m = mapdef(&t);
                let e = map_event(t[1], &m);
                self.maps.insert(t[1].into(), m);
                Some(e)
            },
            "direct" => { self.direct = true; Some("{\"op\":\"direct\"}".into()) },
            "variant" => { let (px, maps) = (std::mem::take(&mut self.px), std::mem::take(&mut self.maps)); *self = Ctx::default(); self.px = px; self.maps = maps; Some(variant("rust")) },
            "A" => {
                let a = t[2];
                match t[1] {
                    "new" => { self.a.insert(a.into(), if t.get(3) == Some(&"default") { Attributes::default() } else { Attributes::new() }); Some(format!("{{\"op\":\"anew\",\"a\":{},\"gets\":{},{}}}", s(a), self.gets(), self.rec_json())) },
                    "copy" => { let Some(c) = self.a.get(t[3]).cloned() else { return no("acopy") }; self.a.insert(a.into(), c); Some(format!("{{\"op\":\"acopy\",\"a\":{},\"src\":{},\"gets\":{},{}}}", s(a), s(t[3]), self.gets(), self.rec_json())) },
                    "drop" => { let Some(x) = self.a.remove(a) else { return no("adrop") }; drop(x); Some(format!("{{\"op\":\"adrop\",\"a\":{},\"gets\":{},{}}}", s(a), self.gets(), self.rec_json())) },
                    "prog" | "log" if t[3] == "clear" || t[4] == "-" => no("clear"),
                    "prog" => {
                        let Some(x) = self.a.get_mut(a) else { return no("aprog") };
                        let m = Arc::new(ProgMode { mode: t[3].into(), k: AtomicI64::new(t[4].parse().unwrap()) });
                        let rec = self.rec.clone();
                        x.set_progress_callback(move |p| progress(&rec, &m, p));
                        Some(format!("{{\"op\":\"aprog\",\"a\":{},\"mode\":{},\"k\":{}}}", s(a), s(t[3]), t[4]))
                    },
                    "log" => {
                        let Some(x) = self.a.get_mut(a) else { return no("alog") };
                        let (rec, tag) = (self.rec.clone(), t[4].to_string());
                        if t[3] == "log" { x.set_log_callback(move |_, _| rec.lock().unwrap().logs.push((tag.clone(), 'L'))); }
                        else { x.set_log_flush_callback(move |_| rec.lock().unwrap().logs.push((tag.clone(), 'F'))); }
                        Some(format!("{{\"op\":\"alog\",\"a\":{},\"which\":{},\"tag\":{},{}}}", s(a), s(t[3]), s(t[4]), self.rec_json()))
                    },
                    what => {
                        let Some(x) = self.a.get_mut(a) else { return no("aset") };
                        let v1: i64 = t[3].parse().unwrap();
                        let v2: i64 = t.get(4).map_or(0, |v| v.parse().unwrap());
                        let r = match what {
                            "max" => x.set_max_colors(v1 as u32),
                            "q" => x.set_quality(v1 as u8, v2 as u8),
                            "speed" => x.set_speed(v1 as i32),
                            "post" => x.set_min_posterization(v1 as u8),
                            "lit" => { x.set_last_index_transparent(v1 != 0); Ok(()) },
                            _ => panic!("aset {what}"),
                        };
                        Some(format!("{{\"op\":\"aset\",\"a\":{},\"what\":{},\"v1\":{v1},\"v2\":{v2},\"st\":\"{}\",\"gets\":{},{}}}", s(a), s(what), st(&r), self.gets(), self.rec_json()))
                    },
                }
            },
            "I" => {
                let i = t[2];
                match t[1] {
                    "new" => {
                        if !self.a.contains_key(t[3]) { return no("inew") }
                        let r = self.image(&t);
                        let stt = st(&r);
                        let (w, h) = r.as_ref().map_or((0, 0), |i| (i.img.width(), i.img.height()));
                        if let Ok(x) = r { self.i.insert(i.into(), x); } else { self.i.remove(i); }
                        Some(format!("{{\"op\":\"inew\",\"i\":{},\"a\":{},\"px\":{},\"rep\":{},\"g\":{},\"w\":{w},\"h\":{h},\"st\":\"{stt}\",{}}}", s(i), s(t[3]), s(t[4]), s(t[5]), g5(t[6]), self.rec_json()))
                    },
                    // creation from a buffer of given length; only validation is observed
                    "raw" => {
                        let Some(a) = self.a.get(t[3]) else { return no("iraw") };
                        let (rep, len, w, h, stride, g) = (t[4], t[5].parse::<usize>().unwrap(), t[6].parse::<usize>().unwrap(), t[7].parse::<usize>().unwrap(), t[8].parse::<usize>().unwrap(), f(t[9]));
                        let v = vec![RGBA::new(1, 2, 3, 255); len];
                        let r = match rep {
                            "owned" => a.new_image(v, w, h, g).map(|i| (i.width(), i.height())),
                            "borrowed" => a.new_image_borrowed(&v, w, h, g).map(|i| (i.width(), i.height())),
                            "stride" => a.new_image_stride(v, w, h, stride, g).map(|i| (i.width(), i.height())),
                            "sborrowed" => Image::new_stride_borrowed(a, &v, w, h, stride, g).map(|i| (i.width(), i.height())),
                            "fn" => unsafe { Image::new_fn(a, |_: &mut [MaybeUninit<RGBA>], _| (), w, h, g) }.map(|i| (i.width(), i.height())),
                            _ => panic!(),
                        };
                        let stt = st(&r);
                        let (ow, oh) = r.unwrap_or((0, 0));
                        let cap = |v: usize| v.min(i32::MAX as usize);
                        let area = (w as u128) * (h as u128) > (isize::MAX / 16) as u128;
                        Some(format!("{{\"op\":\"iraw\",\"rep\":{},\"len\":{},\"w\":{},\"h\":{},\"stride\":{},\"wx\":{},\"hx\":{},\"sx\":{},\"ax\":{area},\"g\":{},\"ow\":{},\"oh\":{},\"st\":\"{stt}\"}}", s(rep), len, cap(w), cap(h), cap(stride), big(w), big(h), big(stride), g5(t[9]), cap(ow), cap(oh)))
                    },
                    "clone" => {
                        let Some(x) = self.i.get(t[3]) else { return no("iclone") };
                        let c = Img { img: x.img.clone(), px: x.px.clone(), bg: x.bg.clone(), calls: x.calls.clone() };
                        self.i.insert(i.into(), c);
                        Some(format!("{{\"op\":\"iclone\",\"i\":{},\"src\":{}}}", s(i), s(t[3])))
                    },
                    "drop" => { if self.i.remove(i).is_none() { return no("idrop") }; churn(); Some(format!("{{\"op\":\"idrop\",\"i\":{}}}", s(i))) },
                    "imp" if matches!(t.get(4), Some(&"bad" | &"null")) => no("iimp"),
                    "imp" => {
                        let m = self.maps[t[3]].clone();
                        let Some(x) = self.i.get_mut(i) else { return no("iimp") };
                        let (zdig, udig) = map_digests(&x.px, &m);
                        let r = x.img.set_importance_map(m);
                        Some(format!("{{\"op\":\"iimp\",\"i\":{},\"map\":{},\"st\":\"{}\",\"zdig\":\"{zdig}\",\"udig\":\"{udig}\"}}", s(i), s(t[3]), st(&r)))
                    },
                    "fix" => {
                        let Some(x) = self.i.get_mut(i) else { return no("ifix") };
                        let c = rgba(t[3]);
                        let r = x.img.add_fixed_color(c);
                        Some(format!("{{\"op\":\"ifix\",\"i\":{},\"c\":{},\"st\":\"{}\"}}", s(i), col(c), st(&r)))
                    },
                    "bg" => {
                        if !self.i.contains_key(i) || !self.i.contains_key(t[3]) || i == t[3] { return no("ibg") }
                        let b = self.i.remove(t[3]).unwrap();
                        let x = self.i.get_mut(i).unwrap();
                        let r = x.img.set_background(b.img);
                        if r.is_ok() { x.bg = Some(b.px); }
                        Some(format!("{{\"op\":\"ibg\",\"i\":{},\"b\":{},\"st\":\"{}\"}}", s(i), s(t[3]), st(&r)))
                    },
                    o => no(&format!("i{o}")),
                }
            },
            "H" => {
                let h = t[2];
                match t[1] {
                    "new" => { let Some(a) = self.a.get(t[3]) else { return no("hnew") }; let x = Histogram::new(a); self.h.insert(h.into(), x); Some(format!("{{\"op\":\"hnew\",\"h\":{},\"a\":{}}}", s(h), s(t[3]))) },
                    "drop" => { if self.h.remove(h).is_none() { return no("hdrop") }; Some(format!("{{\"op\":\"hdrop\",\"h\":{}}}", s(h))) },
                    "img" => {
                        let (Some(x), Some(a), Some(i)) = (self.h.get_mut(h), self.a.get(t[3]), self.i.get_mut(t[4])) else { return no("himg") };
                        let r = x.add_image(a, &mut i.img);
                        Some(format!("{{\"op\":\"himg\",\"h\":{},\"a\":{},\"i\":{},\"st\":\"{}\",{}}}", s(h), s(t[3]), s(t[4]), st(&r), self.rec_json()))
                    },
                    "col" => {
                        let Some(x) = self.h.get_mut(h) else { return no("hcol") };
                        let e = entries(t[4]);
                        let r = x.add_colors(&e, f(t[3]));
                        Some(format!("{{\"op\":\"hcol\",\"h\":{},\"g\":{},\"ents\":{},\"st\":\"{}\"}}", s(h), g5(t[3]), ents_json(&e), st(&r)))
                    },
                    "fix" => {
                        let Some(x) = self.h.get_mut(h) else { return no("hfix") };
                        let r = x.add_fixed_color(rgba(t[4]), f(t[3]));
                        Some(format!("{{\"op\":\"hfix\",\"h\":{},\"g\":{},\"c\":{},\"st\":\"{}\"}}", s(h), g5(t[3]), col(rgba(t[4])), st(&r)))
                    },
                    o => no(&format!("h{o}")),
                }
            },
            "Q" => { // Q r a i
                let (Some(a), Some(i)) = (self.a.get(t[2]), self.i.get_mut(t[3])) else { return no("quant") };
                let mut r = a.quantize(&mut i.img);
                let bad = i.calls.1.load(SeqCst);
                let direct = self.direct;
                let obs = r.as_mut().map_or(NOOBS.into(), |r| Self::robs(r, direct));
                let stt = st(&r);
                if let Ok(r) = r { self.r.insert(t[1].into(), r); } else { self.r.remove(t[1]); }
                Some(format!("{{\"op\":\"quant\",\"r\":{},\"a\":{},\"i\":{},\"st\":\"{stt}\",\"cbbad\":{bad},{obs},{}}}", s(t[1]), s(t[2]), s(t[3]), self.rec_json()))
            },
            "HQ" => { // HQ r a h
                let (Some(a), Some(h)) = (self.a.get(t[2]), self.h.get_mut(t[3])) else { return no("hquant") };
                let mut r = h.quantize(a);
                let direct = self.direct;
                let obs = r.as_mut().map_or(NOOBS.into(), |r| Self::robs(r, direct));
                let stt = st(&r);
                if let Ok(r) = r { self.r.insert(t[1].into(), r); } else { self.r.remove(t[1]); }
                Some(format!("{{\"op\":\"hquant\",\"r\":{},\"a\":{},\"h\":{},\"st\":\"{stt}\",{obs},{}}}", s(t[1]), s(t[2]), s(t[3]), self.rec_json()))
            },
            "R" => {
                let r = t[2];
                match t[1] {
                    "clone" => { let Some(mut x) = self.r.get(t[3]).cloned() else { return no("rclone") }; let o = Self::robs(&mut x, self.direct); self.r.insert(r.into(), x); Some(format!("{{\"op\":\"rclone\",\"r\":{},\"src\":{},{o}}}", s(r), s(t[3]))) },
                    "drop" => { if self.r.remove(r).is_none() { return no("rdrop") }; Some(format!("{{\"op\":\"rdrop\",\"r\":{}}}", s(r))) },
                    "dith" => {
                        let Some(x) = self.r.get_mut(r) else { return no("rdith") };
                        let e = x.set_dithering_level(f(t[3]) as f32);
                        let o = Self::robs(x, self.direct);
                        Some(format!("{{\"op\":\"rdith\",\"r\":{},\"v\":{},\"st\":\"{}\",{o}}}", s(r), g5(t[3]), st(&e)))
                    },
                    "gam" => {
                        let Some(x) = self.r.get_mut(r) else { return no("rgam") };
                        let e = x.set_output_gamma(f(t[3]));
                        let o = Self::robs(x, self.direct);
                        Some(format!("{{\"op\":\"rgam\",\"r\":{},\"v\":{},\"st\":\"{}\",{o}}}", s(r), g5(t[3]), st(&e)))
                    },
                    "prog" if t[3] == "clear" => no("clear"),
                    "prog" => {
                        let Some(x) = self.r.get_mut(r) else { return no("rprog") };
                        let m = Arc::new(ProgMode { mode: t[3].into(), k: AtomicI64::new(t[4].parse().unwrap()) });
                        let rec = self.rec.clone();
                        x.set_progress_callback(move |p| progress(&rec, &m, p));
                        Some(format!("{{\"op\":\"rprog\",\"r\":{},\"mode\":{},\"k\":{}}}", s(r), s(t[3]), t[4]))
                    },
                    // reads the palette of the object itself (not of a copy)
                    "pal" => {
                        let Some(x) = self.r.get_mut(r) else { return no("rpal") };
                        let plen0 = x.palette_len();
                        let p = x.palette().to_vec();
                        let v = x.palette_vec();
                        let same = p == v && plen0 == p.len() && x.palette_len() == plen0;
                        Some(format!("{{\"op\":\"rpal\",\"r\":{},\"pal\":{},\"plen\":{},\"psame\":{}}}", s(r), cols(&p), plen0, same))
                    },
                    o => no(&format!("r{o}")),
                }
            },
            "M" => { // M r i how k
                let (Some(x), Some(i)) = (self.r.get_mut(t[1]), self.i.get_mut(t[2])) else { return no("remap") };
                let how = t[3];
                let k: usize = t.get(4).map_or(0, |k| k.parse().unwrap());
                let n = i.px.w * i.px.h;
                let plen = x.palette_len();
                let fill = if plen <= 255 { 255u8 } else { 0xAA };
                let mut rpal: Option<Vec<RGBA>> = None;
                // when every byte is a valid index, pixels that have not been written are those that differ in another buffer
                let twin = if how == "into" && plen > 255 { Some((x.clone(), i.img.clone())) } else { None };
                let mut touched = 0usize; // cells outside of the image (or any, on failure) that were changed
                let (e, idx) = match how {
                    "remapped" => match x.remapped(&mut i.img) { Ok((p, v)) => { rpal = Some(p); (Ok(()), v) }, Err(e) => (Err(e), vec![]) },
                    "vec" => { let mut b = vec![fill; k]; match x.remap_into_vec(&mut i.img, &mut b) { Ok(p) => { rpal = Some(p); (Ok(()), b) }, Err(e) => (Err(e), vec![]) } },
                    "into" | "small" => {
                        let len = if how == "small" { n.saturating_sub(k.max(1)) } else { n + k };
                        // buffer in the middle of a guarded area
                        let mut b = vec![MaybeUninit::new(fill); len + 64];
                        let e = x.remap_into(&mut i.img, &mut b[32..32 + len]);
                        let b: Vec<u8> = b.iter().map(|v| unsafe { v.assume_init() }).collect();
                        let end = if e.is_ok() { 32 + n } else { 32 };
                        touched = b[..32].iter().chain(&b[end.min(b.len())..]).filter(|&&v| v != fill).count();
                        if e.is_err() && !matches!(e, Err(Error::BufferTooSmall)) { touched = b[..32].iter().chain(&b[32 + len..]).filter(|&&v| v != fill).count(); }
                        (e, if e.is_ok() { b[32..32 + n].to_vec() } else { vec![] })
                    },
                    _ => return no("remap"),
                };
                let (g, full) = if e.is_ok() && idx.len() == n { groups(&i.px, i.bg.as_deref(), &idx) } else { ("[]".into(), false) };
                let unwritten = match twin {
                    Some((mut x, mut img)) if e.is_ok() => {
                        let mut b = vec![MaybeUninit::new(!fill); n];
                        match x.remap_into(&mut img, &mut b) {
                            Ok(()) => b.iter().zip(&idx).filter(|(b, &i)| i == fill && unsafe { b.assume_init() } == !fill).count(),
                            Err(_) => 0,
                        }
                    },
                    _ => 0,
                };
                let obs = Self::robs(x, self.direct);
                let rpsame = rpal.map_or(true, |p| p == x.clone().palette());
                let bad = i.calls.1.load(SeqCst);
                let mx = idx.iter().copied().max().map_or(-1, i32::from);
                let mut o = format!("{{\"op\":\"remap\",\"r\":{},\"i\":{},\"how\":{},\"st\":\"{}\",\"n\":{},\"need\":{n},\"maxi\":{mx},\"touched\":{touched},\"unwritten\":{unwritten},\"rpsame\":{rpsame},\"cbbad\":{bad},\"dig\":\"{}\",\"full\":{full},\"groups\":{g},{obs},",
                    s(t[1]), s(t[2]), s(how), st(&e), idx.len(), digest(&idx));
                // optional: plain bitmap, for properties about positions
                if n <= 1100 && idx.len() == n && raw_wanted() { let _ = write!(o, "\"raw\":{:?},", idx); }
                Some(format!("{o}{}}}", self.rec_json()))
            },
            // allocates and releases memory, so that dangling data gets overwritten
            "churn" => { churn(); None },
            _ => panic!("unknown op {l}"),
        }
    }
}

pub fn mapdef(t: &[&str]) -> Vec<u8> {
    if t[0] == "map" { return unhex(t[2]); }
    let mut r = crate::gen::Rng(t[3].parse().unwrap());
    (0..t[2].parse::<usize>().unwrap()).map(|_| r.next() as u8).collect()
}
pub fn map_event(name: &str, m: &[u8]) -> String {
    format!("{{\"op\":\"map\",\"name\":{},\"len\":{},\"maxv\":{},\"minv\":{},\"v\":{}}}", s(name), m.len(), m.iter().max().unwrap_or(&0), m.iter().min().unwrap_or(&0), if m.len() <= 1100 { format!("{m:?}") } else { "[]".into() })
}
pub fn entries(t: &str) -> Vec<HistogramEntry> {
    if t == "-" { vec![] } else { t.split(',').map(|p| { let (c, n) = p.split_once(':').unwrap(); HistogramEntry { color: rgba(c), count: n.parse().unwrap() } }).collect() }
}
pub fn ents_json(e: &[HistogramEntry]) -> String {
    list(e.iter().map(|e| format!("[{},{},{},{},{},{}]", e.color.r, e.color.g, e.color.b, e.color.a, e.count / 1_000_000, e.count % 1_000_000)))
}
pub const NOOBS: &str = "\"pal\":[],\"plen\":0,\"psame\":true,\"qerr\":-1,\"qq\":-1,\"rerr\":-1,\"rq\":-1,\"og\":0";
/// digest of the pixels without those that have importance 0, and digest of the map alone
pub fn map_digests(px: &Px, m: &[u8]) -> (String, String) {
    let mut b = Vec::with_capacity(m.len() * 5);
    for (c, &w) in px.data.iter().zip(m) { b.extend_from_slice(&if w == 0 { [0; 5] } else { [c.r, c.g, c.b, c.a, w] }); }
    (digest(&b), digest(m))
}
pub fn variant(api: &str) -> String {
    format!("{{\"op\":\"variant\",\"api\":\"{api}\",\"build\":{},\"large\":{}}}", s(&std::env::var("LIQDRV_BUILD").unwrap_or_default()), cfg!(feature = "large"))
}
fn churn() {
    let v: Vec<Vec<u8>> = (0..64).map(|n| vec![0xB7u8 ^ n as u8; 16 << (n % 10)]).collect();
    std::hint::black_box(&v);
}
fn big(v: usize) -> bool { v > i32::MAX as usize }
pub fn g5(x: &str) -> i64 { let v = f(x); if v.is_nan() { -777777 } else { (v * 1e5).round().clamp(-2e9, 2e9) as i64 } }

fn progress(rec: &Mutex<Rec>, m: &ProgMode, p: f32) -> ControlFlow {
    let k = m.k.fetch_sub(1, SeqCst);
    let brk = match m.mode.as_str() { "none" => false, "persist" => k <= 1, "once" => k == 1, _ => panic!() };
    let pi = if p.is_finite() { (p * 100.).round() as i32 } else { -1 };
    rec.lock().unwrap().prog.push((pi, brk));
    if brk { ControlFlow::Break } else { ControlFlow::Continue }
}

pub fn run(lines: &[&str]) -> Vec<String> {
    let mut c = Ctx::default();
    let mut ev = vec![variant("rust")];
    for l in lines {
        match catch_unwind(AssertUnwindSafe(|| c.step(l))) {
            Ok(Some(e)) => ev.push(e),
            Ok(None) => {},
            Err(_) => { ev.push(format!("{{\"op\":\"panic\",\"in\":{}}}", s(l.chars().take(60).collect::<String>().as_str()))); std::mem::forget(c); return ev; },
        }
    }
    ev
}
