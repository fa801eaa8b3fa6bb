//! Generators of charstrings.

use crate::model::t2::*;

/// An integer operand.
pub fn number(value: i64) -> Vec<u8> {
    let mut code = vec![];
    int(value, &mut code);
    code
}

/// A 16.16 operand.
pub fn real(raw: i32) -> Vec<u8> {
    let mut code = vec![];
    fixed(raw, &mut code);
    code
}

/// An operator.
pub fn token(operator: u16) -> Vec<u8> {
    let mut code = vec![];
    op(operator, &mut code);
    code
}

/// The i-th of a sequence of pairwise distinct operands of all encodings.
pub fn distinct(i: usize, code: &mut Vec<u8>) {
    let i = (i % 6000) as i64;
    match i % 4 {
        0 => int(3 * i + 7, code),
        1 => int(-(5 * i) - 111, code),
        2 => fixed(((2 * i as i32 + 1) << 16) | 0x4000, code),
        _ => int(1200 + i, code),
    }
}

pub fn distincts(from: usize, count: usize) -> Vec<u8> {
    let mut code = vec![];
    for i in from..from + count {
        distinct(i, &mut code);
    }
    code
}

/// A writer of charstrings that follows the number of stems.
#[derive(Clone, Default)]
pub struct Writer {
    pub code: Vec<u8>,
    pub stems: usize,
    pub operands: usize,
    pub written: usize,
    /// What mask bytes consist of.
    pub fill: u8,
}

impl Writer {
    pub fn push(&mut self, count: usize) {
        for _ in 0..count {
            distinct(self.written, &mut self.code);
            self.written += 1;
        }
        self.operands += count;
    }

    /// An operator behind a number of new operands; masks get their bytes.
    pub fn operation(&mut self, operator: u16, count: usize) {
        self.push(count);
        op(operator, &mut self.code);
        match operator {
            HSTEM | VSTEM | HSTEMHM | VSTEMHM => self.stems += self.operands / 2,
            HINTMASK | CNTRMASK => {
                self.stems += self.operands / 2;
                for i in 0..(self.stems + 7) / 8 {
                    self.code.push(self.fill.wrapping_add(i as u8));
                }
            }
            _ => {}
        }
        self.operands = 0;
    }
}

/// All operators that clear the stack: drawing, the masks and endchar.
pub fn clearing() -> Vec<u16> {
    let mut list = DRAWING.to_vec();
    list.extend([HINTMASK, CNTRMASK, ENDCHAR]);
    list
}

/// Cut a charstring made by a `Writer` into its tokens.
pub fn tokens(code: &[u8]) -> Vec<Vec<u8>> {
    let mut list = vec![];
    let mut at = 0;
    let (mut stems, mut operands) = (0, 0);
    while at < code.len() {
        let length = match code[at] {
            28 => 3,
            32..=246 => 1,
            247..=254 => 2,
            255 => 5,
            12 => 2,
            _ => 1,
        };
        let mut length = length;
        match code[at] {
            28 | 32..=255 => operands += 1,
            1 | 3 | 18 | 23 => {
                stems += operands / 2;
                operands = 0;
            }
            19 | 20 => {
                stems += operands / 2;
                operands = 0;
                length += (stems + 7) / 8;
            }
            _ => operands = 0,
        }
        list.push(code[at..at + length].to_vec());
        at += length;
    }
    list
}
