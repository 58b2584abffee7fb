// A small JPEG writer for demonstrations: fixed 4 bit DC codes, fixed 8 bit AC codes.
#![allow(dead_code)]
pub struct Bits { pub out: Vec<u8>, acc: u32, n: u32 }
impl Bits {
    pub fn new() -> Bits { Bits { out: vec![], acc: 0, n: 0 } }
    pub fn put(&mut self, code: u32, len: u32) {
        for i in (0..len).rev() {
            self.acc = (self.acc << 1) | ((code >> i) & 1);
            self.n += 1;
            if self.n == 8 { self.byte(); }
        }
    }
    fn byte(&mut self) {
        let b = self.acc as u8;
        self.out.push(b);
        if b == 0xff { self.out.push(0); }
        self.acc = 0; self.n = 0;
    }
    pub fn flush(&mut self) { while self.n != 0 { self.put(1, 1); } }
    pub fn marker(&mut self, m: u8) { self.flush(); self.out.push(0xff); self.out.push(m); }
    pub fn value(&mut self, v: i32) -> u32 {
        let a = v.unsigned_abs(); let s = 32 - a.leading_zeros();
        s
    }
    pub fn mag(&mut self, v: i32, s: u32) {
        if s == 0 { return; }
        let x = if v < 0 { (v + (1 << s) - 1) as u32 } else { v as u32 };
        self.put(x, s);
    }
    pub fn dc(&mut self, diff: i32) { let s = self.value(diff); self.put(s, 4); self.mag(diff, s); }
    pub fn sym(&mut self, rs: u8) { self.put(ac_code(rs), 8); }
    pub fn ac(&mut self, run: u8, v: i32) { let s = self.value(v); self.sym(run << 4 | s as u8); self.mag(v, s); }
    pub fn eob(&mut self) { self.sym(0); }
    /// a baseline block: dc difference and (run,value) pairs
    pub fn block(&mut self, diff: i32, acs: &[(u8, i32)]) {
        self.dc(diff);
        let mut k = 1;
        for (r, v) in acs { self.ac(*r, *v); k += *r as usize + 1; }
        if k < 64 { self.eob(); }
    }
}
pub fn ac_syms() -> Vec<u8> { let mut v = vec![]; for r in 0..16u8 { for s in 0..11u8 { v.push(r << 4 | s); } } v }
pub fn ac_code(rs: u8) -> u32 { ac_syms().iter().position(|x| *x == rs).unwrap() as u32 }
pub fn seg(m: u8, body: &[u8]) -> Vec<u8> {
    let l = body.len() + 2;
    let mut v = vec![0xff, m, (l >> 8) as u8, l as u8];
    v.extend_from_slice(body); v
}
pub fn soi() -> Vec<u8> { vec![0xff, 0xd8] }
pub fn eoi() -> Vec<u8> { vec![0xff, 0xd9] }
pub fn dqt(id: u8, q: &[u8; 64]) -> Vec<u8> { let mut b = vec![id]; b.extend_from_slice(q); seg(0xdb, &b) }
/// comps: (id, h, v, tq)
pub fn sof(m: u8, w: u16, h: u16, comps: &[(u8, u8, u8, u8)]) -> Vec<u8> {
    let mut b = vec![8, (h >> 8) as u8, h as u8, (w >> 8) as u8, w as u8, comps.len() as u8];
    for c in comps { b.push(c.0); b.push(c.1 << 4 | c.2); b.push(c.3); }
    seg(m, &b)
}
pub fn dht_dc(id: u8) -> Vec<u8> { let mut b = vec![id]; let mut l = [0u8; 16]; l[3] = 12; b.extend_from_slice(&l); b.extend(0..12u8); seg(0xc4, &b) }
pub fn dht_ac(id: u8) -> Vec<u8> { let mut b = vec![0x10 | id]; let mut l = [0u8; 16]; l[7] = 176; b.extend_from_slice(&l); b.extend(ac_syms()); seg(0xc4, &b) }
/// comps: (id, td, ta)
pub fn sos(comps: &[(u8, u8, u8)], ss: u8, se: u8, ah: u8, al: u8) -> Vec<u8> {
    let mut b = vec![comps.len() as u8];
    for c in comps { b.push(c.0); b.push(c.1 << 4 | c.2); }
    b.push(ss); b.push(se); b.push(ah << 4 | al);
    seg(0xda, &b)
}
pub fn dri(n: u16) -> Vec<u8> { seg(0xdd, &n.to_be_bytes()) }
pub fn cat(parts: &[Vec<u8>]) -> Vec<u8> { parts.concat() }
pub const YCC: [(u8, u8, u8, u8); 3] = [(1, 1, 1, 0), (2, 1, 1, 0), (3, 1, 1, 0)];
pub const SCAN3: [(u8, u8, u8); 3] = [(1, 0, 0), (2, 0, 0), (3, 0, 0)];
/// headers of an image up to and without SOS
pub fn head(m: u8, w: u16, h: u16, comps: &[(u8, u8, u8, u8)]) -> Vec<u8> {
    cat(&[soi(), dqt(0, &[1; 64]), sof(m, w, h, comps), dht_dc(0), dht_ac(0)])
}
/// a whole baseline image without sub-sampling whose blocks are given by f(mcu, component)
pub fn base(w: u16, h: u16, n: usize, mut f: impl FnMut(usize, usize) -> (i32, Vec<(u8, i32)>)) -> Vec<u8> {
    let mcus = ((w as usize + 7) / 8) * ((h as usize + 7) / 8);
    let mut b = Bits::new();
    for m in 0..mcus { for c in 0..n { let (d, a) = f(m, c); b.block(d, &a); } }
    b.flush();
    cat(&[head(0xc0, w, h, &YCC[..n]), sos(&SCAN3[..n], 0, 63, 0, 0), b.out, eoi()])
}
/// the same with a pseudo random but fixed content
pub fn noise(w: u16, h: u16, n: usize) -> Vec<u8> {
    let mut x = 12345u32;
    let mut r = move || { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 16) as i32 };
    base(w, h, n, move |_, _| (r() % 60 - 30, vec![(0, r() % 90 + 5), (1, -(r() % 40) - 3), (0, r() % 17 + 1)]))
}
/// a DC scan (first pass) of the given components over n MCUs of one block each, values by f(mcu, component index)
#[allow(dead_code)]
pub fn dcscan(comps: &[(u8, u8, u8)], n: usize, al: u8, ri: usize, f: impl Fn(usize, usize) -> i32) -> Vec<u8> {
    let mut out = sos(comps, 0, 0, 0, al);
    let mut pred = [0i32; 4];
    let mut b = Bits::new();
    let mut r = 0u8;
    for m in 0..n {
        for (c, k) in comps.iter().enumerate() { let v = f(m, k.0 as usize - 1); b.dc(v - pred[c]); pred[c] = v; }
        if ri != 0 && (m + 1) % ri == 0 && m + 1 < n { b.marker(0xd0 + r); r = (r + 1) & 7; pred = [0; 4]; }
    }
    b.flush();
    out.extend(b.out);
    out
}
/// a pass over AC coefficients that leaves every block as it is
#[allow(dead_code)]
pub fn noac(comp: (u8, u8, u8), n: usize, ss: u8, se: u8, ah: u8, al: u8) -> Vec<u8> {
    let mut out = sos(&[comp], ss, se, ah, al);
    let mut b = Bits::new();
    for _ in 0..n { b.eob(); }
    b.flush();
    out.extend(b.out);
    out
}
