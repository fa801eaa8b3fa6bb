use crate::type2::{Operand, Operation, Operator};
use crate::Result;

/// A program.
pub struct Program<'l> {
    tables: [&'l [Vec<u8>]; 2],
    frames: Vec<Frame<'l>>,
    operands: Vec<Operand>,
    hints: usize,
    width: Option<Operand>,
    state: State,
}

#[derive(Clone, Copy)]
struct Frame<'l> {
    code: &'l [u8],
}

#[derive(Clone, Copy, PartialEq)]
enum State {
    Fresh,
    Drawing,
    Over,
}

enum Token {
    Operand(Operand),
    Operator(Operator),
}

enum Step {
    Continue,
    Report(Operation),
    Finish,
}

impl<'l> Program<'l> {
    /// Create a program.
    pub fn new(code: &'l [u8], global: &'l [Vec<u8>], local: &'l [Vec<u8>]) -> Self {
        Self {
            tables: [local, global],
            frames: vec![Frame { code }],
            operands: Vec::with_capacity(48),
            hints: 0,
            width: None,
            state: State::Fresh,
        }
    }

    /// Return the next operation.
    #[allow(clippy::should_implement_trait)]
    pub fn next(&mut self) -> Result<Option<Operation>> {
        if self.state == State::Over {
            return Ok(None);
        }
        loop {
            match self.step() {
                Ok(Step::Continue) => {}
                Ok(Step::Report(operation)) => return Ok(Some(operation)),
                Ok(Step::Finish) => {
                    self.state = State::Over;
                    return Ok(None);
                }
                Err(error) => {
                    // Nothing can be told after an error.
                    self.state = State::Over;
                    return Err(error);
                }
            }
        }
    }

    /// Return the width difference with respect to the nominal width.
    pub fn width(&self) -> Option<Operand> {
        self.width
    }

    fn step(&mut self) -> Result<Step> {
        let operator = match self.token()? {
            None => return Ok(Step::Finish),
            Some(Token::Operand(value)) => {
                self.operands.push(value);
                return Ok(Step::Continue);
            }
            Some(Token::Operator(operator)) => operator,
        };
        use Operator::*;
        match operator {
            CallSubr => self.call(0),
            CallGSubr => self.call(1),
            Return => {
                if self.frames.len() < 2 {
                    raise!("nothing to return to");
                }
                self.frames.pop();
                Ok(Step::Continue)
            }
            EndChar => {
                let count = self.operands.len();
                self.leading(count == 1 || count == 5, 0);
                Ok(Step::Finish)
            }
            HintMask | CntrMask => {
                let count = self.operands.len();
                self.hints += count / 2;
                let size = self.hints / 8 + (self.hints % 8 != 0) as usize;
                self.bytes(size)?;
                self.leading(count % 2 != 0, 0);
                self.operands.clear();
                Ok(Step::Report((operator, Vec::new())))
            }
            HStem | VStem | HStemHM | VStemHM => {
                self.hints += self.operands.len() / 2;
                self.report(operator)
            }
            _ => match arguments(operator) {
                Some(_) => self.report(operator),
                _ => {
                    self.compute(operator)?;
                    Ok(Step::Continue)
                }
            },
        }
    }

    fn report(&mut self, operator: Operator) -> Result<Step> {
        let accepts = arguments(operator).unwrap();
        let count = self.operands.len();
        // As many operands as the operator can take; one is the fewest.
        let taken = match (1..=count).rev().find(|&taken| accepts(taken)) {
            Some(taken) => taken,
            _ => raise!("the operands do not fit"),
        };
        let surplus = count - taken;
        self.leading(surplus > 0, surplus.wrapping_sub(1));
        let operands = self.operands.split_off(surplus);
        self.operands.clear();
        Ok(Step::Report((operator, operands)))
    }

    fn leading(&mut self, present: bool, place: usize) {
        if self.state == State::Fresh {
            if present {
                self.width = Some(self.operands[place]);
            }
            self.state = State::Drawing;
        }
    }

    fn call(&mut self, table: usize) -> Result<Step> {
        let table = self.tables[table];
        let number = self.integer()? as i64;
        let bias = match table.len() {
            0..=1239 => 107,
            1240..=33899 => 1131,
            _ => 32768,
        };
        let code = usize::try_from(number + bias).ok().and_then(|i| table.get(i));
        let Some(code) = code else { raise!("no such subroutine") };
        if self.frames.len() > 10 {
            raise!("too deep");
        }
        self.frames.push(Frame { code });
        Ok(Step::Continue)
    }

    fn compute(&mut self, operator: Operator) -> Result<()> {
        use Operator::*;
        let truth = |value: bool| value as u8 as f32;
        let value = match operator {
            Abs => f32::abs(self.pop()?),
            Neg => 0.0 - self.pop()?,
            Sqrt => self.pop()?.sqrt(),
            Not => truth(self.pop()? == 0.0),
            Add | Sub | Mul | Div | And | Or | Eq => {
                let second = self.pop()?;
                let first = self.pop()?;
                match operator {
                    Add => first + second,
                    Sub => first - second,
                    Mul => first * second,
                    Div => first / second,
                    And => truth(first != 0.0 && second != 0.0),
                    Or => truth(first != 0.0 || second != 0.0),
                    _ => truth(first == second),
                }
            }
            Drop => {
                self.pop()?;
                return Ok(());
            }
            Exch => {
                let count = self.operands.len();
                if count < 2 {
                    raise!("nothing to exchange");
                }
                self.operands.swap(count - 1, count - 2);
                return Ok(());
            }
            Dup => match self.operands.last() {
                Some(value) => *value,
                _ => raise!("nothing to duplicate"),
            },
            Index => {
                let place = self.integer()?.max(0) as usize;
                match self.operands.iter().rev().nth(place) {
                    Some(value) => *value,
                    _ => raise!("nothing there"),
                }
            }
            Roll => {
                let shift = self.integer()? as i64;
                let span = self.integer()?;
                let count = self.operands.len();
                let span = match usize::try_from(span) {
                    Ok(span) if span <= count => span,
                    _ => raise!("not as many operands"),
                };
                if span > 0 {
                    let top = self.operands.split_off(count - span);
                    let from = (-shift).rem_euclid(span as i64) as usize;
                    self.operands.extend_from_slice(&top[from..]);
                    self.operands.extend_from_slice(&top[..from]);
                }
                return Ok(());
            }
            IfElse => {
                let count = self.operands.len();
                if count < 4 {
                    raise!("nothing to choose from");
                }
                let four = self.operands.split_off(count - 4);
                match four[2].partial_cmp(&four[3]) {
                    Some(std::cmp::Ordering::Less | std::cmp::Ordering::Equal) => four[0],
                    _ => four[1],
                }
            }
            operator => raise!("{operator:?} is not supported"),
        };
        self.operands.push(value);
        Ok(())
    }

    fn pop(&mut self) -> Result<Operand> {
        match self.operands.pop() {
            Some(value) => Ok(value),
            _ => raise!("too few operands"),
        }
    }

    fn integer(&mut self) -> Result<i32> {
        let value = self.pop()? as f64;
        if value.fract() != 0.0 || !(-2147483648.0..=2147483647.0).contains(&value) {
            raise!("an integer is required");
        }
        Ok(value as i32)
    }

    fn token(&mut self) -> Result<Option<Token>> {
        if self.frames.last().unwrap().code.is_empty() {
            if self.operands.is_empty() && self.frames.len() == 1 {
                return Ok(None);
            }
            if self.frames.len() == 1 {
                return Ok(None);
            }
            raise!("a subroutine without an end");
        }
        let first = self.bytes(1)?[0];
        Ok(Some(match first {
            28 => {
                let bytes = self.bytes(2)?;
                Token::Operand(i16::from_be_bytes([bytes[0], bytes[1]]).into())
            }
            32..=246 => Token::Operand((first as i16 - 139).into()),
            247..=250 => {
                let second = self.bytes(1)?[0] as i16;
                Token::Operand(((first as i16 - 247) * 256 + second + 108).into())
            }
            251..=254 => {
                let second = self.bytes(1)?[0] as i16;
                Token::Operand((-(first as i16 - 251) * 256 - second - 108).into())
            }
            255 => {
                let bytes = self.bytes(4)?;
                let raw = i32::from_be_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]);
                Token::Operand((raw as f64 / 65536.0) as f32)
            }
            12 => {
                let second = self.bytes(1)?[0];
                Token::Operator(Operator::from(0x0c00 | second as u16)?)
            }
            code => Token::Operator(Operator::from(code as u16)?),
        }))
    }

    fn bytes(&mut self, count: usize) -> Result<&'l [u8]> {
        let frame = self.frames.last_mut().unwrap();
        if count > frame.code.len() {
            return Err(std::io::ErrorKind::UnexpectedEof.into());
        }
        let (head, tail) = frame.code.split_at(count);
        frame.code = tail;
        Ok(head)
    }
}

/// The numbers of operands that an operator that clears the stack takes.
fn arguments(operator: Operator) -> Option<fn(usize) -> bool> {
    use Operator::*;
    Some(match operator {
        RMoveTo => |count| count == 2,
        HMoveTo | VMoveTo => |count| count == 1,
        RLineTo | HStem | VStem | HStemHM | VStemHM => |count| count % 2 == 0,
        HLineTo | VLineTo => |_| true,
        RRCurveTo => |count| count % 6 == 0,
        HHCurveTo | VVCurveTo => |count| count >= 4 && count % 4 < 2,
        HVCurveTo | VHCurveTo => |count| count >= 4 && count % 4 < 2,
        RCurveLine => |count| count >= 8 && count % 6 == 2,
        RLineCurve => |count| count >= 8 && count % 2 == 0,
        Flex => |count| count == 13,
        Flex1 => |count| count == 11,
        HFlex => |count| count == 7,
        HFlex1 => |count| count == 9,
        _ => return None,
    })
}
