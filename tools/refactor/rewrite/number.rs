use crate::Result;

/// A number.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Number {
    /// An integer number.
    Integer(i32),
    /// A real number.
    Real(f32),
}

impl From<f32> for Number {
    fn from(value: f32) -> Self {
        Self::Real(value)
    }
}

impl From<i32> for Number {
    fn from(value: i32) -> Self {
        Self::Integer(value)
    }
}

impl crate::value::Read for Number {
    fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
        let first: u8 = tape.take()?;
        let value = match first {
            28 => i32::from(tape.take::<i16>()?),
            29 => i32::from_be_bytes(tape.take::<u32>()?.to_be_bytes()),
            30 => return Ok(Self::Real(decimal(tape)?)),
            32..=246 => i32::from(first) - 139,
            247..=254 => {
                let second: u8 = tape.take()?;
                let (negative, high) = if first < 251 { (false, first - 247) } else { (true, first - 251) };
                let value = i32::from(u16::from_be_bytes([high, second])) + 108;
                if negative { -value } else { value }
            }
            _ => raise!("not a number: {first}"),
        };
        Ok(Self::Integer(value))
    }
}

/// Read a decimal as its digits and the power of ten of the last one.
fn decimal<T: crate::tape::Read>(tape: &mut T) -> Result<f32> {
    #[derive(PartialEq)]
    enum Part {
        Start,
        Whole,
        Fraction,
        Power,
    }
    let (mut negative, mut part) = (false, Part::Start);
    let (mut digits, mut fraction, mut seen) = (String::new(), 0i64, false);
    let (mut power, mut less, mut powers, mut huge) = (0i64, false, 0, false);
    'bytes: loop {
        let byte: u8 = tape.take()?;
        for nibble in [byte >> 4, byte & 15] {
            match (nibble, &part) {
                (15, _) => break 'bytes,
                (0..=9, Part::Power) => {
                    powers += 1;
                    power = (power * 10 + i64::from(nibble)).min(1_000_000_000);
                    huge |= power >= 1_000_000;
                }
                // What follows the letter may have a sign of its own.
                (14, Part::Power) if powers == 0 && !less => less = true,
                (0..=9, _) => {
                    if part == Part::Start {
                        part = Part::Whole;
                    }
                    seen = true;
                    fraction += (part == Part::Fraction) as i64;
                    digits.push(char::from(b'0' + nibble));
                }
                (10, Part::Start | Part::Whole) => part = Part::Fraction,
                (11 | 12, Part::Start | Part::Whole | Part::Fraction) => {
                    if !seen {
                        raise!("no digits");
                    }
                    less = nibble == 12;
                    part = Part::Power;
                }
                (14, Part::Start) if !negative => negative = true,
                _ => raise!("not a decimal"),
            }
        }
    }
    if !seen || part == Part::Power && powers == 0 {
        raise!("no digits");
    }
    let sign = if negative { -1.0 } else { 1.0 };
    let digits = digits.trim_start_matches('0');
    if digits.is_empty() {
        return Ok(0.0);
    }
    if huge && digits.len() < 100_000 {
        return if less { Ok(0.0) } else { raise!("too large") };
    }
    let power = if less { -power } else { power } - fraction;
    match format!("{digits}e{power}").parse::<f32>() {
        Ok(value) if value.is_finite() => Ok(sign * value),
        _ => raise!("too large"),
    }
}
