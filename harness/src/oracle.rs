//! Independent trit-wise Troika permutation and sponge.
use crate::troika_rc::RC;

const SBOX: [usize; 27] = [6, 25, 17, 5, 15, 10, 4, 20, 24, 0, 1, 2, 9, 22, 26, 18, 16, 14, 3, 13, 23, 7, 11, 12, 8, 21, 19];
const LANES: [usize; 27] = [19, 13, 21, 10, 24, 15, 2, 9, 3, 14, 0, 6, 5, 1, 25, 22, 23, 20, 7, 17, 26, 12, 8, 18, 16, 11, 4];

fn at(z: usize, row: usize, col: usize) -> usize { 27 * z + 9 * row + col }

pub fn round(w: &mut Vec<u8>, r: usize) {
    // substitution of trytes (three neighbouring columns)
    for i in 0..243 {
        let v = 9 * w[3 * i] as usize + 3 * w[3 * i + 1] as usize + w[3 * i + 2] as usize;
        let s = SBOX[v];
        w[3 * i] = (s / 9) as u8;
        w[3 * i + 1] = (s / 3 % 3) as u8;
        w[3 * i + 2] = (s % 3) as u8;
    }
    // rows
    let old = w.clone();
    for z in 0..27 { for row in 0..3 { for col in 0..9 {
        w[at(z, row, (col + 3 * row) % 9)] = old[at(z, row, col)];
    } } }
    // lanes
    let old = w.clone();
    for z in 0..27 { for row in 0..3 { for col in 0..9 {
        w[at((z + LANES[col + 9 * row]) % 27, row, col)] = old[at(z, row, col)];
    } } }
    // column parity
    let mut par = vec![[0u8; 9]; 27];
    for z in 0..27 { for col in 0..9 {
        par[z][col] = (w[at(z, 0, col)] + w[at(z, 1, col)] + w[at(z, 2, col)]) % 3;
    } }
    for z in 0..27 { for row in 0..3 { for col in 0..9 {
        let i = at(z, row, col);
        w[i] = (w[i] + par[z][(col + 8) % 9] + par[(z + 1) % 27][(col + 1) % 9]) % 3;
    } } }
    // round constants on the first row
    for z in 0..27 { for col in 0..9 {
        let (p, n) = RC[r][col];
        let c = (p >> z & 1) + 2 * (n >> z & 1);
        let i = at(z, 0, col);
        w[i] = (w[i] + c as u8) % 3;
    } }
}
pub fn perm(w: &mut Vec<u8>) {
    for r in 0..24 { round(w, r); }
}

/// Reference sponge: 729 trits and a position.
#[derive(Clone, Debug, PartialEq)]
pub struct Sp { pub w: Vec<u8>, pub pos: usize }
impl Sp {
    pub fn new() -> Sp { Sp { w: vec![0; 729], pos: 0 } }
    pub fn commit(&mut self) { if self.pos != 0 { perm(&mut self.w); self.pos = 0; } }
    fn step(&mut self, f: impl Fn(u8) -> (u8, u8)) -> u8 {
        let (out, new) = f(self.w[self.pos]);
        self.w[self.pos] = new;
        self.pos += 1;
        if self.pos == 486 { self.commit(); }
        out
    }
    pub fn absorb(&mut self, x: &[u8]) { for t in x { self.step(|_| (0, *t)); } }
    pub fn squeeze(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.step(|s| (s, 0))).collect() }
    pub fn encr(&mut self, x: &[u8]) -> Vec<u8> { x.iter().map(|t| self.step(|s| ((t + s) % 3, *t))).collect() }
    pub fn decr(&mut self, y: &[u8]) -> Vec<u8> { y.iter().map(|t| self.step(|s| ((t + 3 - s) % 3, (t + 3 - s) % 3))).collect() }
    pub fn join(&mut self, o: &mut Sp) { let x = o.squeeze(243); self.absorb(&x); }
}
pub fn hash(x: &[u8], n: usize) -> Vec<u8> {
    let mut s = Sp::new();
    s.absorb(x);
    s.commit();
    s.squeeze(n)
}
