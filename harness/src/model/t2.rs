//! The reference Type 2 machine, written from Adobe Technical Note 5177.
//!
//! `step` semantics are those of the note; wherever the note (and the property)
//! leaves the behaviour open, the machine answers `Any` or `EndOrError`.

use crate::run::Print;

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    /// An operation with its operands.
    Op(u16, Vec<f32>),
    /// The end of the program.
    End,
    /// An error.
    Error,
    /// No further operation, be it reported as the end or as an error.
    EndOrError,
    /// Not defined: anything but a crash.
    Any,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Width {
    Known(Option<f32>),
    Any,
}

pub struct Machine<'a> {
    global: &'a [Vec<u8>],
    local: &'a [Vec<u8>],
    frames: Vec<(&'a [u8], usize)>,
    pub stack: Vec<f32>,
    pub stems: usize,
    pub width: Width,
    cleared: bool,
    pub finished: bool,
    /// The nesting exceeded what the format guarantees: an error is acceptable from here on.
    pub deep: bool,
    /// Whether there has been a number that may be rejected as too large.
    pub lenient: bool,
    /// Number of tokens executed.
    pub steps: u64,
}

const GUARANTEED_DEPTH: usize = 10;
/// No program that is explored nests this deep unless its recursion is endless.
const UNBOUNDED_DEPTH: usize = 1000;

pub const HSTEM: u16 = 1;
pub const VSTEM: u16 = 3;
pub const VMOVETO: u16 = 4;
pub const RLINETO: u16 = 5;
pub const HLINETO: u16 = 6;
pub const VLINETO: u16 = 7;
pub const RRCURVETO: u16 = 8;
pub const CALLSUBR: u16 = 10;
pub const RETURN: u16 = 11;
pub const ENDCHAR: u16 = 14;
pub const HSTEMHM: u16 = 18;
pub const HINTMASK: u16 = 19;
pub const CNTRMASK: u16 = 20;
pub const RMOVETO: u16 = 21;
pub const HMOVETO: u16 = 22;
pub const VSTEMHM: u16 = 23;
pub const RCURVELINE: u16 = 24;
pub const RLINECURVE: u16 = 25;
pub const VVCURVETO: u16 = 26;
pub const HHCURVETO: u16 = 27;
pub const CALLGSUBR: u16 = 29;
pub const VHCURVETO: u16 = 30;
pub const HVCURVETO: u16 = 31;
pub const HFLEX: u16 = 0x0c22;
pub const FLEX: u16 = 0x0c23;
pub const HFLEX1: u16 = 0x0c24;
pub const FLEX1: u16 = 0x0c25;

/// All operators that clear the stack and are reported, except the masks.
pub const DRAWING: [u16; 21] = [
    HSTEM, VSTEM, HSTEMHM, VSTEMHM, RMOVETO, HMOVETO, VMOVETO, RLINETO, HLINETO, VLINETO,
    RRCURVETO, HHCURVETO, VVCURVETO, HVCURVETO, VHCURVETO, RCURVELINE, RLINECURVE, HFLEX, FLEX,
    HFLEX1, FLEX1,
];

/// Check if a number of operands is one that a drawing operator admits.
pub fn admissible(operator: u16, n: usize) -> bool {
    match operator {
        HSTEM | VSTEM | HSTEMHM | VSTEMHM => n >= 2 && n % 2 == 0,
        RMOVETO => n == 2,
        HMOVETO | VMOVETO => n == 1,
        RLINETO => n >= 2 && n % 2 == 0,
        HLINETO | VLINETO => n >= 1,
        RRCURVETO => n >= 6 && n % 6 == 0,
        HHCURVETO | VVCURVETO => n >= 4 && (n % 4 == 0 || n % 4 == 1),
        HVCURVETO | VHCURVETO => n >= 4 && (n % 4 == 0 || n % 4 == 1),
        RCURVELINE => n >= 8 && (n - 2) % 6 == 0,
        RLINECURVE => n >= 8 && (n - 6) % 2 == 0,
        HFLEX => n == 7,
        FLEX => n == 13,
        HFLEX1 => n == 9,
        FLEX1 => n == 11,
        _ => unreachable!(),
    }
}

/// Find the longest admissible number of topmost operands.
pub fn longest(operator: u16, available: usize) -> Option<usize> {
    (0..=available).rev().find(|&n| admissible(operator, n))
}

pub fn bias(count: usize) -> i64 {
    if count < 1240 {
        107
    } else if count < 33900 {
        1131
    } else {
        32768
    }
}

enum Number {
    Value(f32),
    Truncated,
    None,
}

impl<'a> Machine<'a> {
    pub fn new(code: &'a [u8], global: &'a [Vec<u8>], local: &'a [Vec<u8>]) -> Self {
        Machine {
            global,
            local,
            frames: vec![(code, 0)],
            stack: vec![],
            stems: 0,
            width: Width::Known(None),
            cleared: false,
            finished: false,
            deep: false,
            lenient: false,
            steps: 0,
        }
    }

    /// A fingerprint of the state as far as the future depends on it.
    pub fn print(&self) -> Print {
        let mut print = Print::new()
            .add(self.stems as u64)
            .add(self.cleared as u64 + 2 * self.finished as u64)
            .add(match self.width {
                Width::Known(None) => 1,
                Width::Known(Some(value)) => 2 + ((value.to_bits() as u64) << 8),
                Width::Any => 3,
            })
            .add(self.stack.len() as u64);
        // Of a very deep stack, only the ends.
        let deep = self.stack.len() > 96;
        let (low, high) = if deep { (8, self.stack.len() - 8) } else { (self.stack.len(), self.stack.len()) };
        for value in self.stack[..low].iter().chain(&self.stack[high..]) {
            print = print.add(value.to_bits() as u64);
        }
        for (_, position) in self.frames.iter().skip(1).take(12) {
            print = print.add(*position as u64 + 77);
        }
        print.add(self.frames.len() as u64)
    }

    fn number(&mut self) -> Number {
        let (code, position) = self.frames.last_mut().unwrap();
        let rest = &code[*position..];
        let Some(&b0) = rest.first() else { return Number::None };
        let need = match b0 {
            28 => 3,
            32..=246 => 1,
            247..=254 => 2,
            255 => 5,
            _ => return Number::None,
        };
        if rest.len() < need {
            return Number::Truncated;
        }
        let value: f64 = match b0 {
            28 => {
                let word = (rest[1] as i64) << 8 | rest[2] as i64;
                (if word >= 0x8000 { word - 0x10000 } else { word }) as f64
            }
            32..=246 => (b0 as i64 - 139) as f64,
            247..=250 => ((b0 as i64 - 247) * 256 + rest[1] as i64 + 108) as f64,
            251..=254 => (-(b0 as i64 - 251) * 256 - rest[1] as i64 - 108) as f64,
            _ => {
                let mut word = 0i64;
                for byte in &rest[1..5] {
                    word = word << 8 | *byte as i64;
                }
                if word >= 1 << 31 {
                    word -= 1 << 32;
                }
                word as f64 / 65536.0
            }
        };
        *position += need;
        // The double is exact, so that this rounds once, to nearest.
        Number::Value(value as f32)
    }

    fn clear(&mut self, surplus: usize) {
        if !self.cleared {
            self.cleared = true;
            self.width = match surplus {
                0 => Width::Known(None),
                1 => Width::Known(Some(self.stack[0])),
                _ => Width::Any,
            };
        }
        self.stack.clear();
    }

    /// Run until something is to be reported.
    pub fn next(&mut self, mut visit: impl FnMut(&Self)) -> Out {
        if self.finished {
            return Out::End;
        }
        let mut dangling = false;
        loop {
            let (code, position) = *self.frames.last().unwrap();
            if position == code.len() {
                if self.frames.len() > 1 {
                    // Subroutines shall end in return or endchar.
                    return Out::Any;
                }
                if dangling {
                    return Out::EndOrError;
                }
                self.finished = true;
                return Out::End;
            }
            self.steps += 1;
            match self.number() {
                Number::Value(value) => {
                    dangling = true;
                    self.stack.push(value);
                    if !self.deep {
                        visit(self);
                    }
                    continue;
                }
                Number::Truncated => return Out::Error,
                Number::None => {}
            }
            dangling = false;
            let (code, position) = self.frames.last_mut().unwrap();
            let b0 = code[*position];
            *position += 1;
            let mut operator = b0 as u16;
            if b0 == 12 {
                let Some(&b1) = code.get(*position) else { return Out::Error };
                *position += 1;
                operator = 0x0c00 | b1 as u16;
            }
            if DRAWING.contains(&operator) {
                let available = self.stack.len();
                let Some(count) = longest(operator, available) else { return Out::Error };
                if matches!(operator, HSTEM | VSTEM | HSTEMHM | VSTEMHM) {
                    self.stems += count / 2;
                }
                let operands = self.stack[available - count..].to_vec();
                self.clear(available - count);
                visit(self);
                return Out::Op(operator, operands);
            }
            match operator {
                HINTMASK | CNTRMASK => {
                    let available = self.stack.len();
                    self.stems += available / 2;
                    let skip = (self.stems + 7) / 8;
                    let (code, position) = self.frames.last_mut().unwrap();
                    if code.len() - *position < skip {
                        return Out::Error;
                    }
                    *position += skip;
                    self.clear(available % 2);
                    visit(self);
                    return Out::Op(operator, vec![]);
                }
                ENDCHAR => {
                    if self.frames.iter().skip(1).any(|(code, position)| *position != code.len()) {
                        // endchar shall be the last operator of the glyph.
                        return Out::Any;
                    }
                    match self.stack.len() {
                        1 | 5 => self.clear(1),
                        _ => self.clear(0),
                    }
                    self.finished = true;
                    visit(self);
                    return Out::End;
                }
                CALLSUBR | CALLGSUBR => {
                    let table = if operator == CALLSUBR { self.local } else { self.global };
                    let number = match self.integer() {
                        Ok(number) => number,
                        Err(out) => return out,
                    };
                    let index = number.saturating_add(bias(table.len()));
                    if index < 0 || index >= table.len() as i64 {
                        return Out::Error;
                    }
                    if self.frames.len() > UNBOUNDED_DEPTH {
                        return Out::Error;
                    }
                    if self.frames.len() > GUARANTEED_DEPTH {
                        self.deep = true;
                    }
                    self.frames.push((&table[index as usize], 0));
                }
                RETURN => {
                    if self.frames.len() == 1 {
                        return Out::Error;
                    }
                    self.frames.pop();
                }
                0x0c03..=0x0c05 | 0x0c09..=0x0c0c | 0x0c0e | 0x0c0f | 0x0c12 | 0x0c16 | 0x0c18
                | 0x0c1a..=0x0c1e => {
                    if let Err(out) = self.arithmetic(operator) {
                        return out;
                    }
                }
                _ => return Out::Error,
            }
            if !self.deep {
                visit(self);
            }
        }
    }

    fn pop(&mut self) -> Result<f32, Out> {
        self.stack.pop().ok_or(Out::Error)
    }

    fn integer(&mut self) -> Result<i64, Out> {
        let value = self.pop()? as f64;
        if value.is_nan() || value.is_infinite() {
            return Err(Out::Error);
        }
        if value.fract() != 0.0 {
            return Err(Out::Error);
        }
        if !(-2147483648.0..2147483648.0).contains(&value) {
            // Far outside of what a charstring number can be; it may be rejected.
            self.lenient = true;
        }
        Ok(value as i64)
    }

    fn two(&mut self) -> Result<(f32, f32), Out> {
        if self.stack.len() < 2 {
            return Err(Out::Error);
        }
        let second = self.pop()?;
        Ok((self.pop()?, second))
    }

    fn arithmetic(&mut self, operator: u16) -> Result<(), Out> {
        let truth = |value: bool| if value { 1.0 } else { 0.0 };
        let defined = |values: &[f32]| {
            if values.iter().any(|value| value.is_nan()) {
                Err(Out::Any)
            } else {
                Ok(())
            }
        };
        match operator {
            // and
            0x0c03 => {
                let (a, b) = self.two()?;
                defined(&[a, b])?;
                self.stack.push(truth(a != 0.0 && b != 0.0));
            }
            // or
            0x0c04 => {
                let (a, b) = self.two()?;
                defined(&[a, b])?;
                self.stack.push(truth(a != 0.0 || b != 0.0));
            }
            // not
            0x0c05 => {
                let a = self.pop()?;
                defined(&[a])?;
                self.stack.push(truth(a == 0.0));
            }
            // abs
            0x0c09 => {
                let a = self.pop()?;
                self.stack.push(a.abs());
            }
            // add
            0x0c0a => {
                let (a, b) = self.two()?;
                self.stack.push((a as f64 + b as f64) as f32);
            }
            // sub
            0x0c0b => {
                let (a, b) = self.two()?;
                self.stack.push((a as f64 - b as f64) as f32);
            }
            // div
            0x0c0c => {
                let (a, b) = self.two()?;
                if b == 0.0 {
                    // The quotient is not defined.
                    return Err(Out::Any);
                }
                self.stack.push((a as f64 / b as f64) as f32);
            }
            // neg
            0x0c0e => {
                let a = self.pop()?;
                self.stack.push(-a);
            }
            // eq
            0x0c0f => {
                let (a, b) = self.two()?;
                defined(&[a, b])?;
                self.stack.push(truth(a == b));
            }
            // drop
            0x0c12 => {
                self.pop()?;
            }
            // ifelse
            0x0c16 => {
                if self.stack.len() < 4 {
                    return Err(Out::Error);
                }
                let rest = self.stack.split_off(self.stack.len() - 4);
                defined(&rest[2..])?;
                self.stack.push(if rest[2] <= rest[3] { rest[0] } else { rest[1] });
            }
            // mul
            0x0c18 => {
                let (a, b) = self.two()?;
                self.stack.push((a as f64 * b as f64) as f32);
            }
            // sqrt
            0x0c1a => {
                let a = self.pop()?;
                if a < 0.0 {
                    return Err(Out::Any);
                }
                self.stack.push((a as f64).sqrt() as f32);
            }
            // dup
            0x0c1b => {
                let a = self.pop()?;
                self.stack.push(a);
                self.stack.push(a);
            }
            // exch
            0x0c1c => {
                let (a, b) = self.two()?;
                self.stack.push(b);
                self.stack.push(a);
            }
            // index
            0x0c1d => {
                let i = self.integer()?.max(0) as usize;
                let length = self.stack.len();
                if i >= length {
                    return Err(Out::Error);
                }
                self.stack.push(self.stack[length - 1 - i]);
            }
            // roll: element k (from the bottom of the span) goes to k + J modulo N
            0x0c1e => {
                if self.stack.len() < 2 {
                    return Err(Out::Error);
                }
                let exact = self.stack[self.stack.len() - 1] as f64;
                self.integer()?;
                let span = self.integer()?;
                if span < 0 || span > self.stack.len() as i64 {
                    return Err(Out::Error);
                }
                let base = self.stack.len() - span as usize;
                // Exact for however large a shift.
                let shift = if span == 0 { 0 } else { (exact % span as f64) as i64 };
                let old = self.stack[base..].to_vec();
                for (k, value) in old.iter().enumerate() {
                    let to = (k as i64 + shift).rem_euclid(span) as usize;
                    self.stack[base + to] = *value;
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }
}

/// Encode an integer in the shortest form.
pub fn int(value: i64, code: &mut Vec<u8>) {
    match value {
        -107..=107 => code.push((value + 139) as u8),
        108..=1131 => {
            let v = value - 108;
            code.push((v / 256 + 247) as u8);
            code.push((v % 256) as u8);
        }
        -1131..=-108 => {
            let v = -value - 108;
            code.push((v / 256 + 251) as u8);
            code.push((v % 256) as u8);
        }
        -32768..=32767 => {
            code.push(28);
            code.extend_from_slice(&(value as i16).to_be_bytes());
        }
        _ => panic!("not a charstring integer"),
    }
}

/// Encode a 16.16 number.
pub fn fixed(raw: i32, code: &mut Vec<u8>) {
    code.push(255);
    code.extend_from_slice(&raw.to_be_bytes());
}

/// Encode an operator.
pub fn op(operator: u16, code: &mut Vec<u8>) {
    if operator >= 0x0c00 {
        code.push(12);
        code.push((operator & 0xff) as u8);
    } else {
        code.push(operator as u8);
    }
}
