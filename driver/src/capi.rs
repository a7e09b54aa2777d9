//! The same programs, executed through the C API (csrc/shim.c is compiled against the public header).
use imagequant_sys as _;
use crate::json::*;
use crate::rapi::*;
use imagequant::RGBA;
use std::collections::{BTreeMap, HashMap};
use std::ffi::{c_char, c_int, c_void, CStr};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock};

type Ptr = *mut c_void;
const NULL: Ptr = std::ptr::null_mut();

extern "C" {
    fn sh_err(e: c_int) -> *const c_char;
    fn sh_attr_create(f: Ptr) -> Ptr;
    fn sh_attr_copy(a: Ptr) -> Ptr;
    fn sh_attr_destroy(a: Ptr);
    fn sh_set(a: Ptr, what: c_int, v: c_int, w: c_int) -> c_int;
    fn sh_get(a: Ptr, what: c_int) -> c_int;
    fn sh_set_log(a: Ptr, f: Ptr, u: Ptr);
    fn sh_set_flush(a: Ptr, f: Ptr, u: Ptr);
    fn sh_set_progress(a: Ptr, f: Ptr, u: Ptr);
    fn sh_set_rprogress(a: Ptr, f: Ptr, u: Ptr);
    fn sh_image_rows(a: Ptr, rows: Ptr, w: c_int, h: c_int, g: f64) -> Ptr;
    fn sh_image_rgba(a: Ptr, px: Ptr, w: c_int, h: c_int, g: f64) -> Ptr;
    fn sh_image_custom(a: Ptr, f: Ptr, u: Ptr, w: c_int, h: c_int, g: f64) -> Ptr;
    fn sh_image_own(i: Ptr, flags: c_int) -> c_int;
    fn sh_own_flag(n: c_int) -> c_int;
    fn sh_image_bg(i: Ptr, b: Ptr) -> c_int;
    fn sh_image_imp(i: Ptr, m: Ptr, n: usize, own: c_int) -> c_int;
    fn sh_image_fix(i: Ptr, r: c_int, g: c_int, b: c_int, a: c_int) -> c_int;
    fn sh_image_dim(i: Ptr, h: c_int) -> c_int;
    fn sh_image_destroy(i: Ptr);
    fn sh_hist_create(a: Ptr) -> Ptr;
    fn sh_hist_destroy(h: Ptr);
    fn sh_hist_image(h: Ptr, a: Ptr, i: Ptr) -> c_int;
    fn sh_hist_colors(h: Ptr, a: Ptr, e: Ptr, n: c_int, g: f64) -> c_int;
    fn sh_hist_fix(h: Ptr, r: c_int, g: c_int, b: c_int, a: c_int, gamma: f64) -> c_int;
    fn sh_hist_quantize(h: Ptr, a: Ptr, out: *mut Ptr) -> c_int;
    fn sh_image_quantize(i: Ptr, a: Ptr, out: *mut Ptr) -> c_int;
    fn sh_quantize_image(a: Ptr, i: Ptr) -> Ptr;
    fn sh_set_dither(r: Ptr, v: f32) -> c_int;
    fn sh_set_gamma(r: Ptr, v: f64) -> c_int;
    fn sh_get_gamma(r: Ptr) -> f64;
    fn sh_palette(r: Ptr, out: *mut u8) -> c_int;
    fn sh_remap(r: Ptr, i: Ptr, b: Ptr, n: usize) -> c_int;
    fn sh_remap_rows(r: Ptr, i: Ptr, rows: Ptr) -> c_int;
    fn sh_error(r: Ptr, remapped: c_int) -> f64;
    fn sh_quality(r: Ptr, remapped: c_int) -> c_int;
    fn sh_result_destroy(r: Ptr);
    fn sh_version() -> c_int;
    fn malloc(n: usize) -> Ptr;
    fn free(p: Ptr);
}

fn err(e: c_int) -> String { unsafe { CStr::from_ptr(sh_err(e)).to_str().unwrap().to_string() } }

/// Buffers handed over to the library. `free` given to the library only makes a note (and wrecks the contents).
struct Buf { id: String, len: usize, rec: Arc<Mutex<CRec>> }
fn registry() -> &'static Mutex<HashMap<usize, Buf>> { static R: OnceLock<Mutex<HashMap<usize, Buf>>> = OnceLock::new(); R.get_or_init(Default::default) }
static UNKNOWN_FREES: AtomicUsize = AtomicUsize::new(0);
unsafe extern "C" fn free_rec(p: Ptr) {
    let r = registry().lock().unwrap();
    match r.get(&(p as usize)) {
        Some(b) => { b.rec.lock().unwrap().frees.push(b.id.clone()); std::ptr::write_bytes(p.cast::<u8>(), 0xDD, b.len); },
        None => { UNKNOWN_FREES.fetch_add(1, SeqCst); },
    }
}

#[derive(Default)]
struct CRec { prog: Vec<(i32, bool)>, logs: Vec<(String, char, usize)>, frees: Vec<String> }
struct ProgUser { rec: Arc<Mutex<CRec>>, mode: String, k: AtomicI64 }
struct LogUser { rec: Arc<Mutex<CRec>>, tag: String }
struct RowUser { px: Arc<Px>, calls: AtomicUsize, bad: AtomicUsize }

unsafe extern "C" fn on_progress(p: f32, u: Ptr) -> c_int {
    let u = &*u.cast::<ProgUser>();
    let k = u.k.fetch_sub(1, SeqCst);
    let brk = match u.mode.as_str() { "none" => false, "persist" => k <= 1, "once" => k == 1, _ => false };
    u.rec.lock().unwrap().prog.push((if p.is_finite() { (p * 100.).round() as i32 } else { -1 }, brk));
    // any non-zero value means to continue
    if brk { 0 } else { [1, -1, 77][k.rem_euclid(3) as usize] }
}
unsafe extern "C" fn on_log(a: Ptr, msg: *const c_char, u: Ptr) {
    let u = &*u.cast::<LogUser>();
    let text = CStr::from_ptr(msg).to_str().is_ok();
    u.rec.lock().unwrap().logs.push((u.tag.clone(), if text { 'L' } else { '?' }, a as usize));
}
unsafe extern "C" fn on_flush(a: Ptr, u: Ptr) {
    let u = &*u.cast::<LogUser>();
    u.rec.lock().unwrap().logs.push((u.tag.clone(), 'F', a as usize));
}
unsafe extern "C" fn on_row(out: *mut RGBA, row: c_int, width: c_int, u: Ptr) {
    let u = &*u.cast::<RowUser>();
    u.calls.fetch_add(1, SeqCst);
    if row < 0 || row as usize >= u.px.h || width as usize != u.px.w { u.bad.fetch_add(1, SeqCst); return; }
    let y = row as usize;
    std::ptr::copy_nonoverlapping(u.px.data.as_ptr().add(y * u.px.w), out, u.px.w);
}

struct CImg { p: Ptr, px: Arc<Px>, bg: Option<Arc<Px>>, rows: Option<usize>, pixels: Option<usize>, tracked: bool, user: *const RowUser }

#[derive(Default)]
struct CCtx {
    px: HashMap<String, Arc<Px>>,
    maps: HashMap<String, Vec<u8>>,
    a: BTreeMap<String, (Ptr, bool)>,
    i: BTreeMap<String, CImg>,
    h: BTreeMap<String, Ptr>,
    r: BTreeMap<String, Ptr>,
    rec: Arc<Mutex<CRec>>,
    users: Vec<Box<dyn std::any::Any>>,
    bufs: Vec<(usize, bool)>,
    nbuf: usize,
}
impl Drop for CCtx {
    fn drop(&mut self) {
        unsafe {
            for (_, p) in std::mem::take(&mut self.r) { sh_result_destroy(p); }
            for (_, p) in std::mem::take(&mut self.h) { sh_hist_destroy(p); }
            for (_, p) in std::mem::take(&mut self.i) { sh_image_destroy(p.p); }
            for (_, p) in std::mem::take(&mut self.a) { sh_attr_destroy(p.0); }
            for (b, tracked) in &self.bufs { if *tracked { registry().lock().unwrap().remove(b); } free(*b as Ptr); }
        }
    }
}

impl CCtx {
    /// C memory, known to the recorder if tracked
    fn buf(&mut self, bytes: &[u8], tracked: bool) -> (usize, String) {
        unsafe {
            let p = malloc(bytes.len().max(1));
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), p.cast(), bytes.len());
            self.nbuf += 1;
            let id = format!("b{}", self.nbuf);
            if tracked { registry().lock().unwrap().insert(p as usize, Buf { id: id.clone(), len: bytes.len(), rec: self.rec.clone() }); }
            self.bufs.push((p as usize, tracked));
            (p as usize, if tracked { id } else { String::new() })
        }
    }
    fn user<T: 'static>(&mut self, u: T) -> *const T {
        let b = Box::new(u);
        let p: *const T = &*b;
        self.users.push(b);
        p
    }
    fn gets(&self) -> String {
        list(self.a.iter().map(|(k, a)| unsafe { format!("[{},{},{},{},{},{}]", s(k), sh_get(a.0, 0), sh_get(a.0, 1), sh_get(a.0, 2), sh_get(a.0, 3), sh_get(a.0, 4)) }))
    }
    fn rec_json(&self) -> String { self.rec_json_of("", NULL) }
    /// `gone` is the attr that has just been destroyed
    fn rec_json_of(&self, gone: &str, gonep: Ptr) -> String {
        let r = std::mem::take(&mut *self.rec.lock().unwrap());
        let name = |p: usize| self.a.iter().find(|(_, a)| a.0 as usize == p).map_or(if p == gonep as usize { gone } else { "?" }, |(n, _)| n.as_str()).to_string();
        format!("\"prog\":{},\"logs\":{},\"frees\":{},\"unk\":{}", list(r.prog.iter().map(|(p, b)| format!("[{},{}]", p, *b as u8))),
            list(r.logs.iter().map(|(t, k, a)| format!("[{},\"{}\",{}]", s(t), k, s(&name(*a))))), list(r.frees.iter().map(|f| s(f))), UNKNOWN_FREES.swap(0, SeqCst))
    }
    fn pal(r: Ptr) -> (i32, Vec<RGBA>) {
        let mut out = [0u8; 1024];
        let n = unsafe { sh_palette(r, out.as_mut_ptr()) };
        (n, out[..n.clamp(0, 256) as usize * 4].chunks(4).map(|c| RGBA::new(c[0], c[1], c[2], c[3])).collect())
    }
    fn robs(r: Ptr) -> String {
        let (n, p) = Self::pal(r);
        let again = Self::pal(r);
        let er = |m| unsafe { let v = sh_error(r, m); if v == -1. { None } else { Some(v) } };
        unsafe {
            format!("\"pal\":{},\"plen\":{n},\"psame\":{},\"qerr\":{},\"qq\":{},\"rerr\":{},\"rq\":{},\"og\":{}", cols(&p), again == (n, p.clone()),
                e4(er(0)), sh_quality(r, 0), e4(er(1)), sh_quality(r, 1), (sh_get_gamma(r) * 1e5).round() as i64)
        }
    }

    fn image(&mut self, t: &[&str]) -> (Option<CImg>, String, String) {
        let px = self.px[t[4]].clone();
        let (a, tracked) = self.a[t[3]];
        let (rep, gamma) = (t[5], f(t[6]));
        let pad: usize = t.get(7).map_or(0, |p| p.parse().unwrap());
        let (w, h) = (px.w as c_int, px.h as c_int);
        unsafe {
            match rep {
                "owned" | "borrowed" => {
                    let (b, id) = self.buf(bytes(&px.data), tracked);
                    let p = sh_image_rgba(a, b as Ptr, w, h, gamma);
                    ((!p.is_null()).then(|| CImg { p, px, bg: None, rows: None, pixels: Some(b), tracked, user: std::ptr::null() }), String::new(), id)
                },
                "fn" => {
                    let u = self.user(RowUser { px: px.clone(), calls: AtomicUsize::new(0), bad: AtomicUsize::new(0) });
                    let p = sh_image_custom(a, on_row as Ptr, u as Ptr, w, h, gamma);
                    ((!p.is_null()).then(|| CImg { p, px, bg: None, rows: None, pixels: None, tracked, user: u }), String::new(), String::new())
                },
                _ => {
                    // rows of padded bitmap; either top to bottom or bottom to top
                    let flip = rep.ends_with("trim");
                    let stride = px.w + pad;
                    let mut v = vec![RGBA::new(9, 99, 199, 77); stride * px.h];
                    let at = |y: usize| if flip { px.h - 1 - y } else { y } * stride;
                    for y in 0..px.h { v[at(y)..at(y) + px.w].copy_from_slice(&px.data[y * px.w..][..px.w]); }
                    let (b, id) = self.buf(bytes(&v), tracked);
                    let rows: Vec<usize> = (0..px.h).map(|y| b + at(y) * 4).collect();
                    let (rb, rid) = self.buf(std::slice::from_raw_parts(rows.as_ptr().cast(), rows.len() * 8), tracked);
                    let p = sh_image_rows(a, rb as Ptr, w, h, gamma);
                    ((!p.is_null()).then(|| CImg { p, px, bg: None, rows: Some(rb), pixels: Some(b), tracked, user: std::ptr::null() }), rid, id)
                },
            }
        }
    }
    fn give(&mut self, b: Option<usize>) { if let Some(b) = b { self.bufs.retain(|x| x.0 != b); } }

    unsafe fn step(&mut self, l: &str) -> Option<String> {
        let t: Vec<&str> = l.split_whitespace().collect();
        let no = |op: &str| Some(format!("{{\"op\":\"skip\",\"in\":{}}}", s(op)));
        match t[0] {
            "CAPI" => None,
            "direct" => Some("{\"op\":\"direct\"}".into()),
            "px" | "gen" => { let (n, p) = pxdef(&t); let e = px_event(&n, &p); self.px.insert(n, Arc::new(p)); Some(e) },
            "map" | "gmap" => { let m = mapdef(&t); let e = map_event(t[1], &m); self.maps.insert(t[1].into(), m); Some(e) },
            "variant" => { let (px, maps) = (std::mem::take(&mut self.px), std::mem::take(&mut self.maps)); *self = CCtx::default(); self.px = px; self.maps = maps; Some(variant("c")) },
            "A" => {
                let a = t[2];
                match t[1] {
                    "new" => {
                        if let Some(o) = self.a.remove(a) { sh_attr_destroy(o.0); self.rec.lock().unwrap().logs.clear(); }
                        let tracked = t.get(3) != Some(&"default");
                        let p = sh_attr_create(if tracked { free_rec as Ptr } else { NULL });
                        self.a.insert(a.into(), (p, tracked));
                        Some(format!("{{\"op\":\"anew\",\"a\":{},\"gets\":{},{}}}", s(a), self.gets(), self.rec_json()))
                    },
                    "copy" => {
                        let Some(&(o, tr)) = self.a.get(t[3]) else { return no("acopy") };
                        let c = sh_attr_copy(o);
                        if let Some(o) = self.a.remove(a) { sh_attr_destroy(o.0); self.rec.lock().unwrap().logs.clear(); }
                        self.a.insert(a.into(), (c, tr));
                        Some(format!("{{\"op\":\"acopy\",\"a\":{},\"src\":{},\"gets\":{},{}}}", s(a), s(t[3]), self.gets(), self.rec_json()))
                    },
                    "drop" => {
                        let Some(x) = self.a.remove(a) else { return no("adrop") };
                        sh_attr_destroy(x.0);
                        Some(format!("{{\"op\":\"adrop\",\"a\":{},\"gets\":{},{}}}", s(a), self.gets(), self.rec_json_of(a, x.0)))
                    },
                    "prog" => {
                        let Some(&(x, _)) = self.a.get(a) else { return no("aprog") };
                        if t[3] == "clear" { sh_set_progress(x, NULL, NULL); }
                        else {
                            let u = self.user(ProgUser { rec: self.rec.clone(), mode: t[3].into(), k: AtomicI64::new(t[4].parse().unwrap()) });
                            sh_set_progress(x, on_progress as Ptr, u as Ptr);
                        }
                        Some(format!("{{\"op\":\"aprog\",\"a\":{},\"mode\":{},\"k\":{}}}", s(a), s(if t[3] == "clear" { "" } else { t[3] }), t[4]))
                    },
                    "log" => {
                        let Some(&(x, _)) = self.a.get(a) else { return no("alog") };
                        let clear = t[4] == "-";
                        let (fl, ff) = (on_log as Ptr, on_flush as Ptr);
                        let u = if clear { std::ptr::null() } else { let rec = self.rec.clone(); self.user(LogUser { rec, tag: t[4].into() }) };
                        if t[3] == "log" { sh_set_log(x, if clear { NULL } else { fl }, u as Ptr); } else { sh_set_flush(x, if clear { NULL } else { ff }, u as Ptr); }
                        Some(format!("{{\"op\":\"alog\",\"a\":{},\"which\":{},\"tag\":{},{}}}", s(a), s(t[3]), s(if clear { "" } else { t[4] }), self.rec_json()))
                    },
                    what => {
                        let Some(&(x, _)) = self.a.get(a) else { return no("aset") };
                        let v1: i64 = t[3].parse().unwrap();
                        let v2: i64 = t.get(4).map_or(0, |v| v.parse().unwrap());
                        let n = ["max", "q", "speed", "post", "lit"].iter().position(|w| *w == what).unwrap();
                        let r = sh_set(x, n as c_int, v1 as c_int, v2 as c_int);
                        Some(format!("{{\"op\":\"aset\",\"a\":{},\"what\":{},\"v1\":{v1},\"v2\":{v2},\"st\":\"{}\",\"gets\":{},{}}}", s(a), s(what), err(r), self.gets(), self.rec_json()))
                    },
                }
            },
            "I" => {
                let i = t[2];
                match t[1] {
                    "new" => {
                        if !self.a.contains_key(t[3]) { return no("inew") }
                        let mut pre = String::new();
                        if let Some(o) = self.i.remove(i) { sh_image_destroy(o.p); pre = format!("{{\"op\":\"idrop\",\"i\":{},{}}},", s(i), self.rec_json()); }
                        let (r, rows, pixels) = self.image(&t);
                        let (w, h) = r.as_ref().map_or((0, 0), |i| (sh_image_dim(i.p, 0), sh_image_dim(i.p, 1)));
                        let stt = if r.is_some() { "Ok" } else { "Null" };
                        if let Some(x) = r { self.i.insert(i.into(), x); }
                        Some(format!("{pre}{{\"op\":\"inew\",\"i\":{},\"a\":{},\"px\":{},\"rep\":{},\"g\":{},\"w\":{w},\"h\":{h},\"st\":\"{stt}\",\"rows\":{},\"pixels\":{},{}}}", s(i), s(t[3]), s(t[4]), s(t[5]), g5(t[6]), s(&rows), s(&pixels), self.rec_json()))
                    },
                    // I raw a rep len w h stride g
                    "raw" => {
                        let Some(&(a, _)) = self.a.get(t[3]) else { return no("iraw") };
                        let (w, h, g) = (t[6].parse::<i64>().unwrap() as c_int, t[7].parse::<i64>().unwrap() as c_int, f(t[9]));
                        let px = [RGBA::new(1, 2, 3, 255); 64];
                        let rows = vec![px.as_ptr() as usize; 64];
                        unsafe extern "C" fn nop(_: *mut RGBA, _: c_int, _: c_int, _: Ptr) {}
                        let p = match t[4] {
                            "rgba" => sh_image_rgba(a, px.as_ptr() as Ptr, w, h, g),
                            "rows" => sh_image_rows(a, rows.as_ptr() as Ptr, w, h, g),
                            _ => sh_image_custom(a, nop as Ptr, NULL, w, h, g),
                        };
                        let (ow, oh) = if p.is_null() { (0, 0) } else { (sh_image_dim(p, 0), sh_image_dim(p, 1)) };
                        if !p.is_null() { sh_image_destroy(p); }
                        Some(format!("{{\"op\":\"craw\",\"rep\":{},\"w\":{w},\"h\":{h},\"g\":{},\"ow\":{ow},\"oh\":{oh},\"st\":\"{}\"}}", s(t[4]), g5(t[9]), if p.is_null() { "Null" } else { "Ok" }))
                    },
                    "own" => {
                        let Some(x) = self.i.get(i) else { return no("iown") };
                        let mut fl = 0;
                        for c in t[3].chars() { fl |= match c { 'r' => sh_own_flag(0), 'p' => sh_own_flag(1), 'c' => sh_own_flag(2), 'x' => 1, _ => 0 }; }
                        let e = err(sh_image_own(x.p, fl));
                        let kind = if !x.user.is_null() { "fn" } else if x.rows.is_some() { "rows" } else { "rgba" };
                        if e == "Ok" && !x.tracked {
                            let (rows, pixels) = (x.rows, x.pixels);
                            if t[3].contains('r') { self.give(rows); }
                            if t[3].contains('p') { self.give(pixels); }
                        }
                        Some(format!("{{\"op\":\"iown\",\"i\":{},\"flags\":{},\"kind\":\"{kind}\",\"st\":\"{e}\",{}}}", s(i), s(t[3]), self.rec_json()))
                    },
                    "drop" => { let Some(x) = self.i.remove(i) else { return no("idrop") }; sh_image_destroy(x.p); Some(format!("{{\"op\":\"idrop\",\"i\":{},{}}}", s(i), self.rec_json())) },
                    // I imp i map [own|copy|bad|null|zero]
                    "imp" => {
                        let m = self.maps[t[3]].clone();
                        let Some(x) = self.i.get(i) else { return no("iimp") };
                        let (p, need, tracked) = (x.p, x.px.w * x.px.h, x.tracked);
                        let (zdig, udig) = map_digests(&x.px, &m[..need.min(m.len())]);
                        let how = t.get(4).copied().unwrap_or("copy");
                        let (b, id) = self.buf(&m, tracked);
                        let e = match how {
                            "own" => err(sh_image_imp(p, b as Ptr, m.len(), sh_own_flag(1))),
                            "bad" => err(sh_image_imp(p, b as Ptr, m.len(), sh_own_flag(0))),
                            "null" => err(sh_image_imp(p, NULL, m.len(), sh_own_flag(2))),
                            _ => err(sh_image_imp(p, b as Ptr, m.len(), sh_own_flag(2))),
                        };
                        if how == "own" && e == "Ok" && !tracked { self.give(Some(b)); }
                        // copy must be a copy
                        if how == "copy" { std::ptr::write_bytes(b as *mut u8, 0x33, m.len()); }
                        Some(format!("{{\"op\":\"iimp\",\"i\":{},\"map\":{},\"how\":\"{how}\",\"buf\":{},\"st\":\"{e}\",\"zdig\":\"{zdig}\",\"udig\":\"{udig}\",{}}}", s(i), s(t[3]), s(&id), self.rec_json()))
                    },
                    "fix" => {
                        let Some(x) = self.i.get(i) else { return no("ifix") };
                        let c = rgba(t[3]);
                        let e = err(sh_image_fix(x.p, c.r.into(), c.g.into(), c.b.into(), c.a.into()));
                        Some(format!("{{\"op\":\"ifix\",\"i\":{},\"c\":{},\"st\":\"{e}\"}}", s(i), col(c)))
                    },
                    "bg" => {
                        if !self.i.contains_key(i) || !self.i.contains_key(t[3]) || i == t[3] { return no("ibg") }
                        let b = self.i.remove(t[3]).unwrap();
                        let x = self.i.get_mut(i).unwrap();
                        let e = err(sh_image_bg(x.p, b.p));
                        if e == "Ok" { x.bg = Some(b.px); }
                        Some(format!("{{\"op\":\"ibg\",\"i\":{},\"b\":{},\"st\":\"{e}\",{}}}", s(i), s(t[3]), self.rec_json()))
                    },
                    o => no(&format!("i{o}")),
                }
            },
            "H" => {
                let h = t[2];
                match t[1] {
                    "new" => {
                        let Some(&(a, _)) = self.a.get(t[3]) else { return no("hnew") };
                        if let Some(o) = self.h.remove(h) { sh_hist_destroy(o); }
                        self.h.insert(h.into(), sh_hist_create(a));
                        Some(format!("{{\"op\":\"hnew\",\"h\":{},\"a\":{}}}", s(h), s(t[3])))
                    },
                    "drop" => { let Some(x) = self.h.remove(h) else { return no("hdrop") }; sh_hist_destroy(x); Some(format!("{{\"op\":\"hdrop\",\"h\":{}}}", s(h))) },
                    "img" => {
                        let (Some(&x), Some(&(a, _)), Some(i)) = (self.h.get(h), self.a.get(t[3]), self.i.get(t[4])) else { return no("himg") };
                        let e = err(sh_hist_image(x, a, i.p));
                        Some(format!("{{\"op\":\"himg\",\"h\":{},\"a\":{},\"i\":{},\"st\":\"{e}\",{}}}", s(h), s(t[3]), s(t[4]), self.rec_json()))
                    },
                    "col" => {
                        let Some(&x) = self.h.get(h) else { return no("hcol") };
                        let Some(&(a, _)) = self.a.values().next() else { return no("hcol") };
                        let e = entries(t[4]);
                        let st = err(sh_hist_colors(x, a, e.as_ptr() as Ptr, e.len() as c_int, f(t[3])));
                        Some(format!("{{\"op\":\"hcol\",\"h\":{},\"g\":{},\"ents\":{},\"st\":\"{st}\"}}", s(h), g5(t[3]), ents_json(&e)))
                    },
                    "fix" => {
                        let Some(&x) = self.h.get(h) else { return no("hfix") };
                        let c = rgba(t[4]);
                        let e = err(sh_hist_fix(x, c.r.into(), c.g.into(), c.b.into(), c.a.into(), f(t[3])));
                        Some(format!("{{\"op\":\"hfix\",\"h\":{},\"g\":{},\"c\":{},\"st\":\"{e}\"}}", s(h), g5(t[3]), col(c)))
                    },
                    o => no(&format!("h{o}")),
                }
            },
            "Q" | "HQ" => {
                let Some(&(a, _)) = self.a.get(t[2]) else { return no("quant") };
                let (mut out, mut bad, mut old) = (0x10 as Ptr, 0, false);
                let st = if t[0] == "Q" {
                    let Some(i) = self.i.get(t[3]) else { return no("quant") };
                    old = t.get(4) == Some(&"old");
                    let st = if old { out = sh_quantize_image(a, i.p); if out.is_null() { "Null".to_string() } else { "Ok".to_string() } }
                    else { err(sh_image_quantize(i.p, a, &mut out)) };
                    if !i.user.is_null() { bad = (*i.user).bad.load(SeqCst); }
                    st
                } else {
                    let Some(&h) = self.h.get(t[3]) else { return no("hquant") };
                    err(sh_hist_quantize(h, a, &mut out))
                };
                // output is set to NULL on every error
                let outok = (st == "Ok") == !out.is_null() && (st == "Ok" || out.is_null());
                if let Some(o) = self.r.remove(t[1]) { sh_result_destroy(o); }
                let obs = if st == "Ok" { self.r.insert(t[1].into(), out); Self::robs(out) } else { NOOBS.into() };
                Some(format!("{{\"op\":\"{}\",\"r\":{},\"a\":{},\"{}\":{},\"st\":\"{st}\",\"old\":{old},\"outok\":{outok},\"cbbad\":{bad},{obs},{}}}", if t[0] == "Q" { "quant" } else { "hquant" }, s(t[1]), s(t[2]), if t[0] == "Q" { "i" } else { "h" }, s(t[3]), self.rec_json()))
            },
            "R" => {
                let r = t[2];
                let Some(&x) = self.r.get(r) else { return no(&format!("r{}", t[1])) };
                match t[1] {
                    "drop" => { self.r.remove(r); sh_result_destroy(x); Some(format!("{{\"op\":\"rdrop\",\"r\":{}}}", s(r))) },
                    "dith" => { let e = err(sh_set_dither(x, f(t[3]) as f32)); Some(format!("{{\"op\":\"rdith\",\"r\":{},\"v\":{},\"st\":\"{e}\",{}}}", s(r), g5(t[3]), Self::robs(x))) },
                    "gam" => { let e = err(sh_set_gamma(x, f(t[3]))); Some(format!("{{\"op\":\"rgam\",\"r\":{},\"v\":{},\"st\":\"{e}\",{}}}", s(r), g5(t[3]), Self::robs(x))) },
                    "prog" => {
                        if t[3] == "clear" { sh_set_rprogress(x, NULL, NULL); }
                        else {
                            let u = self.user(ProgUser { rec: self.rec.clone(), mode: t[3].into(), k: AtomicI64::new(t[4].parse().unwrap()) });
                            sh_set_rprogress(x, on_progress as Ptr, u as Ptr);
                        }
                        Some(format!("{{\"op\":\"rprog\",\"r\":{},\"mode\":{},\"k\":{}}}", s(r), s(if t[3] == "clear" { "" } else { t[3] }), t[4]))
                    },
                    "pal" => { let (n, p) = Self::pal(x); let same = Self::pal(x) == (n, p.clone()); Some(format!("{{\"op\":\"rpal\",\"r\":{},\"pal\":{},\"plen\":{n},\"psame\":{same}}}", s(r), cols(&p))) },
                    o => no(&format!("r{o}")),
                }
            },
            "M" => {
                let (Some(&x), Some(i)) = (self.r.get(t[1]), self.i.get(t[2])) else { return no("remap") };
                let k: usize = t.get(4).map_or(0, |k| k.parse().unwrap());
                let (w, h) = (i.px.w, i.px.h);
                let n = w * h;
                let fill = 255u8;
                // (the palette is read only after remapping, because reading finalizes it)
                let (e, idx, touched, how);
                match t[3] {
                    "into" | "small" => {
                        how = t[3];
                        let len = if how == "small" { n.saturating_sub(k.max(1)) } else { n + k };
                        let mut b = vec![fill; len + 64];
                        e = err(sh_remap(x, i.p, b[32..].as_mut_ptr().cast(), len));
                        let end = if e == "BufferTooSmall" { 32 } else if e == "Ok" { 32 + n } else { 32 + len };
                        touched = b[..32].iter().chain(&b[end..]).filter(|&&v| v != fill).count();
                        idx = if e == "Ok" { b[32..32 + n].to_vec() } else { vec![] };
                    },
                    _ => {
                        how = "rows";
                        // rows in reverse order, with gaps
                        let gap = 5 + k % 7;
                        let mut b = vec![fill; (w + gap) * h + gap];
                        let at = |y: usize| gap + (h - 1 - y) * (w + gap);
                        let base = b.as_mut_ptr();
                        let mut rows: Vec<*mut u8> = (0..h).map(|y| base.add(at(y))).collect();
                        e = err(sh_remap_rows(x, i.p, rows.as_mut_ptr().cast()));
                        let mut outside = vec![true; b.len()];
                        for y in 0..h { outside[at(y)..at(y) + w].fill(false); }
                        touched = b.iter().zip(&outside).filter(|(v, o)| **o && **v != fill).count();
                        idx = if e == "Ok" { (0..h).flat_map(|y| b[at(y)..at(y) + w].to_vec()).collect() } else { vec![] };
                    },
                }
                let (g, full) = if e == "Ok" && idx.len() == n { groups(&i.px, i.bg.as_deref(), &idx) } else { ("[]".into(), false) };
                let bad = if i.user.is_null() { 0 } else { (*i.user).bad.load(SeqCst) };
                let obs = Self::robs(x);
                let mx = idx.iter().copied().max().map_or(-1, i32::from);
                let mut o = format!("{{\"op\":\"remap\",\"r\":{},\"i\":{},\"how\":{},\"st\":\"{e}\",\"n\":{},\"need\":{n},\"maxi\":{mx},\"touched\":{touched},\"rpsame\":true,\"cbbad\":{bad},\"dig\":\"{}\",\"full\":{full},\"groups\":{g},{obs},", s(t[1]), s(t[2]), s(how), idx.len(), digest(&idx));
                if n <= 1100 && idx.len() == n && crate::rapi::raw_wanted() { let _ = write!(o, "\"raw\":{:?},", idx); }
                let _ = write!(o, "{}}}", self.rec_json());
                Some(o)
            },
            // every function, with NULL or with an object of a wrong type in place of each object
            "null" => {
                let a = sh_attr_create(free_rec as Ptr);
                let px = [RGBA::new(1, 2, 3, 255), RGBA::new(4, 5, 6, 0)];
                let i = sh_image_rgba(a, px.as_ptr() as Ptr, 2, 1, 0.);
                let h = sh_hist_create(a);
                let mut r = NULL;
                assert_eq!(0, sh_image_quantize(i, a, &mut r));
                let mut b = [0u8; 64];
                let bp: Ptr = b.as_mut_ptr().cast();
                let mut ev = vec![];
                let ptr = |p: Ptr| if p.is_null() { "NULL".to_string() } else { "object".to_string() };
                let dbl = |d: f64| if d == -1. { "-1".to_string() } else { "value".to_string() };
                let int = |d: c_int| if d == -1 { "-1".to_string() } else { "value".to_string() };
                for (kind, xa, xi, xh, xr) in [("null", NULL, NULL, NULL, NULL), ("wrong", i, h, r, a)] {
                    let mut say = |name: &str, ret: String| ev.push(format!("{{\"op\":\"cnull\",\"fn\":\"{name}\",\"kind\":\"{kind}\",\"ret\":\"{ret}\"}}"));
                    let mut out = 0x10 as Ptr;
                    say("attr_copy", ptr(sh_attr_copy(xa)));
                    say("set_max_colors", err(sh_set(xa, 0, 5, 0)));
                    say("set_quality", err(sh_set(xa, 1, 5, 50)));
                    say("set_speed", err(sh_set(xa, 2, 5, 0)));
                    say("set_min_posterization", err(sh_set(xa, 3, 1, 0)));
                    sh_set(xa, 4, 1, 0);
                    say("set_last_index_transparent", "void".into());
                    for (n, g) in ["max_colors", "min_quality", "max_quality", "speed", "min_posterization"].iter().enumerate() { say(&format!("get_{g}"), int(sh_get(xa, n as c_int))); }
                    sh_set_log(xa, NULL, NULL); sh_set_flush(xa, NULL, NULL); sh_set_progress(xa, NULL, NULL); sh_set_rprogress(xr, NULL, NULL);
                    sh_set_log(xa, on_log as Ptr, NULL); sh_set_flush(xa, on_flush as Ptr, NULL); sh_set_progress(xa, on_progress as Ptr, NULL); sh_set_rprogress(xr, on_progress as Ptr, NULL);
                    say("set_callbacks", "void".into());
                    let rows = [px.as_ptr() as usize];
                    say("image_create_rgba_rows", ptr(sh_image_rows(xa, rows.as_ptr() as Ptr, 2, 1, 0.)));
                    say("image_create_rgba", ptr(sh_image_rgba(xa, px.as_ptr() as Ptr, 2, 1, 0.)));
                    say("image_create_custom", ptr(sh_image_custom(xa, on_row as Ptr, NULL, 2, 1, 0.)));
                    say("image_set_memory_ownership", err(sh_image_own(xi, sh_own_flag(1))));
                    say("image_set_background.img", err(if kind == "null" { sh_image_bg(xi, sh_image_rgba(a, px.as_ptr() as Ptr, 2, 1, 0.)) } else { 105 }));
                    if kind == "null" { say("image_set_background.background", err(sh_image_bg(i, NULL))); }
                    say("image_set_importance_map", err(sh_image_imp(xi, bp, 64, sh_own_flag(2))));
                    say("image_add_fixed_color", err(sh_image_fix(xi, 1, 2, 3, 4)));
                    say("image_get_width", int(sh_image_dim(xi, 0)));
                    say("image_get_height", int(sh_image_dim(xi, 1)));
                    say("histogram_create", ptr(sh_hist_create(xa)));
                    say("histogram_add_image.hist", err(sh_hist_image(xh, a, i)));
                    say("histogram_add_image.attr", err(sh_hist_image(h, xa, i)));
                    say("histogram_add_image.image", err(sh_hist_image(h, a, xi)));
                    say("histogram_add_colors.hist", err(sh_hist_colors(xh, a, bp, 1, 0.)));
                    say("histogram_add_colors.attr", err(sh_hist_colors(h, xa, bp, 1, 0.)));
                    say("histogram_add_fixed_color", err(sh_hist_fix(xh, 1, 2, 3, 4, 0.)));
                    say("histogram_quantize.hist", err(sh_hist_quantize(xh, a, &mut out)));
                    say("histogram_quantize.attr", err(sh_hist_quantize(h, xa, &mut out)));
                    say("image_quantize.image", err(sh_image_quantize(xi, a, &mut out)));
                    say("image_quantize.attr", err(sh_image_quantize(i, xa, &mut out)));
                    say("quantize_image.attr", ptr(sh_quantize_image(xa, i)));
                    say("quantize_image.image", ptr(sh_quantize_image(a, xi)));
                    say("set_dithering_level", err(sh_set_dither(xr, 0.5)));
                    say("set_output_gamma", err(sh_set_gamma(xr, 0.5)));
                    say("get_output_gamma", dbl(sh_get_gamma(xr)));
                    say("get_palette", int(sh_palette(xr, b.as_mut_ptr())));
                    say("write_remapped_image.result", err(sh_remap(xr, i, bp, 2)));
                    say("write_remapped_image.image", err(sh_remap(r, xi, bp, 2)));
                    let mut rows = [bp; 2];
                    say("write_remapped_image_rows.result", err(sh_remap_rows(xr, i, rows.as_mut_ptr().cast())));
                    say("write_remapped_image_rows.image", err(sh_remap_rows(r, xi, rows.as_mut_ptr().cast())));
                    say("get_quantization_error", dbl(sh_error(xr, 0)));
                    say("get_remapping_error", dbl(sh_error(xr, 1)));
                    say("get_quantization_quality", int(sh_quality(xr, 0)));
                    say("get_remapping_quality", int(sh_quality(xr, 1)));
                    if kind == "null" {
                        // buffers
                        say("write_remapped_image.buffer", err(sh_remap(r, i, NULL, 2)));
                        say("write_remapped_image_rows.rows", err(sh_remap_rows(r, i, NULL)));
                        say("image_set_importance_map.buffer", err(sh_image_imp(i, NULL, 2, sh_own_flag(2))));
                        say("image_set_importance_map.size", err(sh_image_imp(i, bp, 0, sh_own_flag(2))));
                        say("image_create_rgba.bitmap", ptr(sh_image_rgba(a, NULL, 2, 1, 0.)));
                        say("image_create_rgba_rows.rows", ptr(sh_image_rows(a, NULL, 2, 1, 0.)));
                        let norows = [NULL; 1];
                        say("image_create_rgba_rows.row", ptr(sh_image_rows(a, norows.as_ptr() as Ptr, 2, 1, 0.)));
                        let somerows = [px.as_ptr() as Ptr, NULL];
                        say("image_create_rgba_rows.last_row", ptr(sh_image_rows(a, somerows.as_ptr() as Ptr, 1, 2, 0.)));
                        say("histogram_add_colors.entries", err(sh_hist_colors(h, a, NULL, 1, 0.)));
                        sh_attr_destroy(NULL); sh_image_destroy(NULL); sh_hist_destroy(NULL); sh_result_destroy(NULL);
                        say("destroy", "void".into());
                    }
                }
                // nothing has been changed by any of this
                let fine = sh_get(a, 0) == 256 && sh_get(a, 3) == 4 && sh_image_dim(i, 0) == 2 && sh_palette(r, b.as_mut_ptr()) == 2 && sh_remap(r, i, bp, 2) == 0;
                let neg = err(sh_hist_colors(h, a, bp, -1, 0.));
                ev.push(format!("{{\"op\":\"cnull\",\"fn\":\"histogram_add_colors.count\",\"kind\":\"negative\",\"ret\":\"{neg}\"}}"));
                ev.push(format!("{{\"op\":\"cnull\",\"fn\":\"objects\",\"kind\":\"after\",\"ret\":\"{}\"}}", if fine { "usable" } else { "changed" }));
                ev.push(format!("{{\"op\":\"cnull\",\"fn\":\"version\",\"kind\":\"after\",\"ret\":\"{}\"}}", if sh_version() >= 40000 { "value" } else { "old" }));
                sh_result_destroy(r); sh_hist_destroy(h); sh_image_destroy(i); sh_attr_destroy(a);
                Some(ev.join(","))
            },
            "churn" => None,
            _ => panic!("unknown op {l}"),
        }
    }
    /// destroys everything, in the order given by the program so far
    unsafe fn finish(&mut self) -> String {
        let mut o = vec![];
        for (_, p) in std::mem::take(&mut self.r) { sh_result_destroy(p); }
        for (_, p) in std::mem::take(&mut self.h) { sh_hist_destroy(p); }
        for (n, p) in std::mem::take(&mut self.i) { sh_image_destroy(p.p); o.push(format!("{{\"op\":\"idrop\",\"i\":{},{}}}", s(&n), self.rec_json())); }
        while let Some((n, p)) = self.a.pop_first() { sh_attr_destroy(p.0); o.push(format!("{{\"op\":\"adrop\",\"a\":{},\"gets\":{},{}}}", s(&n), self.gets(), self.rec_json_of(&n, p.0))); }
        o.push("{\"op\":\"end\"}".into());
        o.join(",")
    }
}

fn bytes(d: &[RGBA]) -> &[u8] { unsafe { std::slice::from_raw_parts(d.as_ptr().cast(), d.len() * 4) } }

fn go(lines: &[&str]) -> Vec<String> {
    let mut c = CCtx::default();
    let mut ev = vec![variant("c")];
    for l in lines {
        match catch_unwind(AssertUnwindSafe(|| unsafe { c.step(l) })) {
            Ok(Some(e)) => ev.push(e),
            Ok(None) => {},
            Err(_) => { ev.push(format!("{{\"op\":\"panic\",\"in\":{}}}", s(l.chars().take(60).collect::<String>().as_str()))); std::mem::forget(c); return ev; },
        }
    }
    ev.push(unsafe { c.finish() });
    ev
}

pub fn run(lines: &[&str]) -> Vec<String> {
    // "CAPI leak": counts blocks of memory that were not released (the process must run one program at a time)
    if lines[0] == "CAPI leak" {
        let lines = &lines[1..];
        drop(go(lines));
        let before = crate::alloc::LIVE.load(SeqCst);
        drop(go(lines));
        let after = crate::alloc::LIVE.load(SeqCst);
        let mut ev = go(lines);
        ev.push(format!("{{\"op\":\"leak\",\"blocks\":{}}}", after - before));
        return ev;
    }
    go(&lines[1..])
}
