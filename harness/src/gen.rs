//! Input generation: enumeration pools, dictionaries, biased random fields.
use crate::calls::{Ins, M};
use crate::model::Model;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0xd1b54a32d192ed03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub struct Gen<'a> {
    pub rng: Rng,
    pub dict: &'a [u64],
    pub recent: [u64; 8],
    at: usize,
    // what was drawn last, for close relatives
    words: [u128; 2],
    wide: U256,
    ptr: FatPointer,
    instr: [Option<Ins>; 2],
}
fn mask(bits: u32) -> u64 {
    if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 }
}
impl<'a> Gen<'a> {
    pub fn new(seed: u64, dict: &'a [u64]) -> Self {
        Gen { rng: Rng::new(seed), dict, recent: [0; 8], at: 0, words: [0; 2], wide: U256::zero(), ptr: FatPointer::empty(), instr: [None; 2] }
    }
    /// A value in some simple relation to one drawn recently.
    fn related(&mut self, bits: u32) -> u64 {
        let r = self.recent[self.rng.below(8) as usize];
        let s = self.recent[self.rng.below(8) as usize];
        let d = self.dict[self.rng.below(self.dict.len() as u64) as usize];
        let h = (bits / 2).max(1);
        match self.rng.below(14) {
            0 => r ^ d,
            1 => d.wrapping_sub(r),
            2 => r.wrapping_sub(d),
            3 => r.wrapping_add(d),
            4 => !r,
            5 => r.wrapping_neg(),
            6 => r.wrapping_mul(2),
            7 => r >> 1,
            8 => r >> h | r << h,
            9 => r.swap_bytes() >> (64 - bits.max(8)),
            10 => r ^ s,
            11 => r.wrapping_add(s),
            12 => r.wrapping_sub(s),
            _ => r & s,
        }
    }
    /// One field of the given width.
    pub fn field(&mut self, bits: u32) -> u64 {
        let m = mask(bits);
        let v = match self.rng.below(20) {
            16..=19 => self.related(bits),
            0..=3 => self.rng.next(),
            4..=6 => self.dict[self.rng.below(self.dict.len() as u64) as usize],
            7 => 0,
            8 => m,
            9 => m.wrapping_sub(self.rng.below(40)),
            10 => self.rng.below(40),
            11 => 1u64 << self.rng.below(bits as u64),
            12 => (1u64 << self.rng.below(bits as u64)).wrapping_sub(self.rng.below(4)).wrapping_add(self.rng.below(3)),
            13 => self.recent[self.rng.below(8) as usize],
            14 => self.recent[self.rng.below(8) as usize].wrapping_add(self.rng.below(5)).wrapping_sub(2),
            _ => { let k = self.rng.below(bits as u64) as u32; self.rng.next() & mask(k + 1) }
        } & m;
        self.recent[self.at & 7] = v;
        self.at += 1;
        v
    }
    /// (One draw in eight differs little from the one before: answers must not be carried over.)
    pub fn ins(&mut self, m: M, model: &Model) -> Ins {
        let imm = if m == M::Prod || self.rng.below(4) == 0 { 16 } else { 32 };
        let variant = model.table[self.rng.below(model.assigned as u64) as usize];
        let i = match self.instr[m as usize] {
            Some(mut i) if self.rng.below(8) == 0 => {
                match self.rng.below(8) {
                    0 | 1 => i.variant = variant,
                    2 => i.cond = model.conds[self.rng.below(8) as usize],
                    3 | 4 => i.regs[self.rng.below(4) as usize] = self.field(4) as u8,
                    5 => i.imm[self.rng.below(2) as usize] = self.field(imm),
                    6 => i.imm.swap(0, 1),
                    _ => { let v = self.field(imm); i.imm[self.rng.below(2) as usize] = v; i.variant = variant }
                }
                i
            }
            _ => Ins {
                variant,
                cond: model.conds[self.rng.below(8) as usize],
                regs: [0; 4].map(|_: u8| self.field(4) as u8),
                imm: [self.field(imm), self.field(imm)],
            },
        };
        self.instr[m as usize] = Some(i);
        i
    }
    /// A word assembled from fields, or bits at large.
    pub fn word(&mut self, m: M, model: &Model) -> u128 {
        let im = model.ins(m);
        if self.rng.below(8) == 0 {
            let k = self.rng.below(im.fields.len() as u64) as usize;
            let f = im.fields[k];
            let old = self.words[m as usize];
            let w = if self.rng.below(2) == 0 { old ^ 1 << self.rng.below(im.bits as u64) } else {
                old & !((mask(f.w) as u128) << f.lo) | (self.field(f.w) as u128) << f.lo
            } & m.word_mask();
            self.words[m as usize] = w;
            return w;
        }
        let mut w: u128 = 0;
        for (i, f) in im.fields.iter().enumerate() {
            let v = if i == 0 && self.rng.below(4) > 0 { self.rng.below(model.assigned as u64 + 8) } else { self.field(f.w) };
            w |= (v as u128) << f.lo;
        }
        match self.rng.below(8) {
            0 => w |= ((self.rng.next() as u128) << 64 | self.rng.next() as u128) & im.dead,
            1 => w |= im.dead,
            2 => w ^= 1 << self.rng.below(im.bits as u64),
            3 => w ^= 1 << self.rng.below(im.bits as u64) | 1 << self.rng.below(im.bits as u64),
            _ => {}
        }
        self.words[m as usize] = w & m.word_mask();
        w & m.word_mask()
    }
    pub fn u256(&mut self) -> U256 {
        let w = if self.rng.below(8) == 0 {
            let mut w = self.wide;
            let k = self.rng.below(4) as usize;
            match self.rng.below(4) {
                0 => w.0[k] ^= 1 << self.rng.below(64),
                1 => w.0[k] = self.field(64),
                2 => { let l = 32 * self.rng.below(2); w.0[k] = w.0[k] & !(mask(32) << l) | self.field(32) << l }
                _ => w.0.swap(k, self.rng.below(4) as usize),
            }
            w
        } else { self.fresh256() };
        self.wide = w;
        w
    }
    fn fresh256(&mut self) -> U256 {
        match self.rng.below(10) {
            0 => U256([0; 4].map(|_: u64| self.rng.next())),
            1 => { let k = self.rng.below(256); U256::one() << k }
            2 => { let (a, b) = (self.rng.below(256), self.rng.below(256)); U256::one() << a | U256::one() << b }
            3 => { let k = self.rng.below(256); !(U256::one() << k) }
            4 => { let k = self.rng.below(256); (U256::one() << k) - U256::one() }
            5 | 6 => U256([0; 4].map(|_: u64| self.field(64))),
            // 32-bit lanes, the last one sometimes as four bytes
            _ => U256([0; 4].map(|_: u64| {
                let lo = self.field(32);
                let hi = if self.rng.below(2) == 0 { self.field(32) } else {
                    self.field(8) | self.field(8) << 8 | self.field(8) << 16 | self.field(8) << 24
                };
                lo | hi << 32
            })),
        }
    }
    pub fn pointer(&mut self) -> FatPointer {
        let p = if self.rng.below(8) == 0 {
            let (mut p, v) = (self.ptr, self.field(32) as u32);
            match self.rng.below(5) { 0 => p.offset = v, 1 => p.memory_page = v, 2 => p.start = v, 3 => p.length = v, _ => std::mem::swap(&mut p.start, &mut p.length) }
            p
        } else { self.fresh_pointer() };
        self.ptr = p;
        p
    }
    fn fresh_pointer(&mut self) -> FatPointer {
        let mut p = FatPointer { offset: self.field(32) as u32, memory_page: self.field(32) as u32, start: self.field(32) as u32, length: self.field(32) as u32 };
        let d = self.rng.below(7) as u32;
        match self.rng.below(8) {
            0 => p.length = 0u32.wrapping_sub(p.start).wrapping_add(d).wrapping_sub(3),
            1 => p.start = 0u32.wrapping_sub(p.length).wrapping_add(d).wrapping_sub(3),
            2 => p.offset = p.length.wrapping_add(d).wrapping_sub(3),
            3 => { p.length = 0u32.wrapping_sub(p.start).wrapping_add(d).wrapping_sub(3); p.offset = p.length.wrapping_add(self.rng.below(7) as u32).wrapping_sub(3) }
            4 => p.offset = 0,
            5 => p.offset = p.start.wrapping_add(d).wrapping_sub(3),
            _ => {}
        }
        p
    }
}
/// Boundary values of a width.
pub fn pool(bits: u32, dict: &[u64], extra: bool) -> Vec<u64> {
    let m = mask(bits);
    let mut v: Vec<u64> = vec![0, 1, 2, 3, m, m - 1, m - 2];
    for k in 0..bits {
        v.push(1 << k);
        v.push(((1u64 << k) - 1) & m);
        v.push(m ^ (1 << k));
    }
    if extra {
        v.extend(dict.iter().filter(|d| **d <= m));
    }
    v.sort();
    v.dedup();
    v
}
