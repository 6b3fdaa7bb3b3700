//! Reference model of a bit stream, written from the documentation: every byte keeps a window
//! of unread bits; most-significant-first reads take from its top, least-significant-first reads
//! from its bottom.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ord2 {
    Msb,
    Lsb,
}

#[derive(Clone, Debug)]
pub struct BitCur<'a> {
    pub data: &'a [u8],
    /// index of the next untouched byte
    pub next: usize,
    /// window of unread bits of byte `next-1`: bits lo..hi, bit 0 the least significant
    pub lo: u8,
    pub hi: u8,
}

impl<'a> BitCur<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        BitCur { data, next: 0, lo: 0, hi: 0 }
    }
    pub fn window(&self) -> usize {
        (self.hi - self.lo) as usize
    }
    pub fn remaining(&self) -> usize {
        self.window() + self.data.len().saturating_sub(self.next) * 8
    }
    /// Bits in stream order, or None when the input is too short.
    pub fn take(&mut self, n: usize, o: Ord2) -> Option<Vec<bool>> {
        if self.remaining() < n {
            return None;
        }
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            if self.lo == self.hi {
                self.next += 1;
                self.lo = 0;
                self.hi = 8;
            }
            let b = self.data[self.next - 1];
            match o {
                Ord2::Msb => {
                    self.hi -= 1;
                    v.push(b >> self.hi & 1 == 1);
                }
                Ord2::Lsb => {
                    v.push(b >> self.lo & 1 == 1);
                    self.lo += 1;
                }
            }
        }
        Some(v)
    }
    /// Unread bits of the partly read byte, most significant first.
    pub fn rest(&self) -> Vec<bool> {
        (self.lo..self.hi).rev().map(|i| self.data[self.next - 1] >> i & 1 == 1).collect()
    }
    pub fn seek(&mut self, pos: usize) {
        self.next = pos;
        self.lo = 0;
        self.hi = 0;
    }
    /// Bits consumed so far, for a history without seeks beyond the end.
    pub fn pos_bits(&self) -> usize {
        self.next * 8 - self.window()
    }
    pub fn aligned(&self) -> bool {
        self.lo == self.hi
    }
}

/// The number the given stream-order bits denote in their bit order (at most 128 bits).
pub fn number(bits: &[bool], o: Ord2) -> u128 {
    let mut v = 0u128;
    match o {
        Ord2::Msb => bits.iter().for_each(|b| v = v << 1 | *b as u128),
        Ord2::Lsb => bits.iter().enumerate().for_each(|(i, b)| v |= (*b as u128) << i),
    }
    v
}
/// Inverse of `number`.
pub fn bits_of(v: u128, n: usize, o: Ord2) -> Vec<bool> {
    match o {
        Ord2::Msb => (0..n).rev().map(|i| v >> i & 1 == 1).collect(),
        Ord2::Lsb => (0..n).map(|i| v >> i & 1 == 1).collect(),
    }
}

/// Reference bit writer. Bits of the pending byte are filled from the top (Msb) or bottom (Lsb);
/// mixing orders inside one byte is flagged, because then no single meaning is documented.
#[derive(Clone, Debug, Default)]
pub struct BitOut {
    pub out: Vec<u8>,
    pub pos: usize,
    pub cur: u8,
    pub n: u8,
    pub lsb: bool,
    pub mixed: bool,
    /// bits flushed, as a writer counts them (seeks do not change it)
    pub flushed: usize,
}
impl BitOut {
    pub fn put(&mut self, bits: &[bool], o: Ord2) {
        for b in bits {
            if self.n == 0 {
                self.lsb = o == Ord2::Lsb;
                self.cur = 0;
            } else if self.lsb != (o == Ord2::Lsb) {
                self.mixed = true;
            }
            if *b {
                self.cur |= match o {
                    Ord2::Msb => 0x80 >> self.n,
                    Ord2::Lsb => 1 << self.n,
                };
            }
            self.n += 1;
            if self.n == 8 {
                self.flush_byte();
            }
        }
    }
    fn flush_byte(&mut self) {
        while self.out.len() < self.pos {
            self.out.push(0);
        }
        if self.pos < self.out.len() {
            self.out[self.pos] = self.cur;
        } else {
            self.out.push(self.cur);
        }
        self.pos += 1;
        self.flushed += 8;
        self.n = 0;
        self.cur = 0;
    }
    pub fn bytes(&mut self, b: &[u8], o: Ord2) {
        for x in b {
            self.put(&bits_of(*x as u128, 8, o), o);
        }
    }
    pub fn finalize(&mut self) {
        if self.n > 0 {
            self.flush_byte();
        }
    }
    pub fn seek(&mut self, pos: usize) {
        self.n = 0;
        self.cur = 0;
        self.pos = pos;
    }
    /// pending bits, most significant first
    pub fn pending(&self) -> Vec<bool> {
        if self.lsb {
            (0..self.n).rev().map(|i| self.cur >> i & 1 == 1).collect()
        } else {
            (0..self.n).map(|i| self.cur & (0x80 >> i) != 0).collect()
        }
    }
    /// every bit written, as one bit string (only meaningful without seeks)
    pub fn total_bits(&self) -> usize {
        self.flushed + self.n as usize
    }
}
pub fn show_bits(b: &[bool]) -> String {
    b.iter().map(|x| if *x { '1' } else { '0' }).collect()
}
pub fn hex(b: &[u8]) -> String {
    if b.len() > 600 {
        return format!("{}..({} bytes)", hex(&b[..600]), b.len());
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}
