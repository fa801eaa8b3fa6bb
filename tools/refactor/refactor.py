#!/usr/bin/env python3
"""Behaviour-preserving edits of a scratch copy of /repo, under which every check has to stay quiet.

refactor.py list | run [BATCH...]     a batch is a set of edits applied together; all checks are run in /tmp/refactor
"""
import os, re, shutil, subprocess, sys

ROOT = '/tmp/refactor'
P = 'src/type2/program.rs'
S = 'src/compact1/font_set/mod.rs'
K = 'src/compact1/font_set/character_id_keyed.rs'
N = 'src/compact1/font_set/character_name_keyed.rs'
I = 'src/compact1/index/mod.rs'
O = 'src/compact1/offset.rs'
U = 'src/compact1/number.rs'
D = 'src/compact1/operation.rs'
E = 'src/compact1/encoding.rs'
C = 'src/compact1/character_set.rs'
M = 'src/compact1/mod.rs'
T = 'src/compact1/index/strings.rs'
A = 'src/compact1/index/names.rs'
Y = 'src/compact1/index/dictionaries.rs'
B = 'src/type2/number.rs'

HERE = os.path.dirname(os.path.abspath(__file__))

BATCHES = {
    # The custom tables and the records by hand; the fonts of a set part by part.
    'sets': [
        (C, '''        let mut ranges = vec![];
        #[allow(clippy::identity_op)]
        let mut found_count = 0 + 1;
        while found_count < glyph_count {
            let range = tape.take::<Range1>()?;
            found_count += 1 + range.left_count as usize;
            ranges.push(range);
        }
        if found_count != glyph_count {
            raise!("found a malformed character set");
        }
''', '''        let ranges = read_ranges(tape, glyph_count, |range: &Range1| range.left_count.into())?;
'''),
        (C, '''        let mut ranges = vec![];
        #[allow(clippy::identity_op)]
        let mut found_count = 0 + 1;
        while found_count < glyph_count {
            let range = tape.take::<Range2>()?;
            found_count += 1 + range.left_count as usize;
            ranges.push(range);
        }
        if found_count != glyph_count {
            reject!();
        }
''', '''        let ranges = read_ranges(tape, glyph_count, |range: &Range2| range.left_count.into())?;
'''),
        (C, '''impl CharacterSet0 {
''', '''fn read_ranges<T: crate::tape::Read, R: crate::value::Read>(
    tape: &mut T,
    glyph_count: usize,
    left_count: impl Fn(&R) -> usize,
) -> Result<Vec<R>> {
    let mut ranges = Vec::new();
    let mut left = match glyph_count.checked_sub(1) {
        Some(left) => left,
        None => raise!("found no glyphs"),
    };
    while left > 0 {
        let range: R = tape.take()?;
        left = match left.checked_sub(1 + left_count(&range)) {
            Some(left) => left,
            None => raise!("found a range that is too long"),
        };
        ranges.push(range);
    }
    Ok(ranges)
}

impl CharacterSet0 {
'''),
        (C, '            glyphs: tape.take_given(glyph_count - 1)?,', '            glyphs: (1..glyph_count).map(|_| tape.take()).collect::<Result<_>>()?,'),
        (E, '''        Ok(match tape.peek::<u8>()? {
            0 => Encoding::Format0(tape.take()?),
            1 => Encoding::Format1(tape.take()?),
            format if format & 0x80 > 0 => Encoding::FormatSupplemental(tape.take()?),
            format => raise!("found an unknown format of encodings ({format})"),
        })
''', '''        match tape.peek::<u8>()? {
            0 => return tape.take().map(Encoding::Format0),
            1 => return tape.take().map(Encoding::Format1),
            0x80 | 0x81 => {}
            format => raise!("found an unknown format of encodings ({format})"),
        }
        let (format, count) = (tape.take::<u8>()?, tape.take::<u8>()?);
        let (mut codes, mut ranges) = (vec![], vec![]);
        for _ in 0..count {
            if format == 0x80 {
                codes.push(tape.take()?);
            } else {
                ranges.push(tape.take()?);
            }
        }
        let supplement_count: u8 = tape.take()?;
        let mut supplements = vec![];
        while supplements.len() < usize::from(supplement_count) {
            supplements.push(tape.take()?);
        }
        Ok(Encoding::FormatSupplemental(EncodingSupplemental {
            format,
            count,
            codes,
            ranges,
            supplement_count,
            supplements,
        }))
'''),
        (K, '''        let (size, offset) = get!(@range top_operations, Private);
        tape.jump(position + offset as u64)?;
        let chunk = read_bytes(tape, size as usize)?;
        let operations = Cursor::new(chunk).take::<Operations>()?;
        let subroutines = match get!(@try @relative operations, Subrs, offset) {
            Some(offset) => jump_take!(@unwrap tape, position, offset),
            _ => Default::default(),
        };
''', '''        let private = tape.take_given::<super::character_name_keyed::Record>((position, top_operations))?;
        let (operations, subroutines) = (private.operations, private.subroutines);
'''),
        (K, '        use crate::tape::Read;\n\n', ''),
        (K, 'use std::io::Cursor;\n\n', ''),
        (K, 'use crate::compact1::{read_bytes, GlyphID', 'use crate::compact1::{GlyphID'),
        (K, '''        let operands = match top_operations.get(Operator::ROS) {
            Some(operands) if operands.len() == 3 => operands,
            _ => raise!("found a malformed character-ID-keyed record"),
        };
''', '''        let (registry, ordering, supplement) = match top_operations.get(Operator::ROS) {
            Some(&[registry, ordering, supplement]) => {
                (registry.try_into()?, ordering.try_into()?, supplement)
            }
            _ => raise!("found something else than a registry, an ordering, and a supplement"),
        };
'''),
        (K, '''            registry: operands[0].try_into()?,
            ordering: operands[1].try_into()?,
            supplement: operands[2],
''', '''            registry,
            ordering,
            supplement,
'''),
        (K, '''        let mut records = vec![];
        for top_operations in operations.iter() {
            records.push(tape.take_given((position, top_operations))?);
        }
''', '''        let records = operations
            .iter()
            .map(|operations| tape.take_given((position, operations)))
            .collect::<Result<_>>()?;
'''),
        (K, '            dictionary_ids: tape.take_given(character_strings.count as usize)?,', '            dictionary_ids: crate::compact1::read_bytes(tape, character_strings.len())?,'),
        (N, '''        let operations = Cursor::new(chunk).take::<Operations>()?;
        let subroutines = match get!(@try @relative operations, Subrs, offset) {
            Some(offset) => jump_take!(@unwrap tape, position, offset),
            _ => Default::default(),
        };
''', '''        let operations: Operations = Cursor::new(&chunk[..]).take()?;
        let mut subroutines = Subroutines::default();
        if let Some(offset) = get!(@try @relative operations, Subrs, offset) {
            tape.jump(position + u64::from(offset))?;
            subroutines = tape.take()?;
        }
'''),
        (S, '''        for (i, operations) in operations.iter().enumerate() {
            character_strings.push''', '''        for operations in operations.iter().rev() {
            character_strings.push'''),
        (S, '''                get!(@single operations, CharStringType)
            ));
            character_sets''', '''                get!(@single operations, CharStringType)
            ));
        }
        character_strings.reverse();
        for (i, operations) in operations.iter().enumerate() {
            records.push(tape.take_given((position, operations, &character_strings[i]))?);
            character_sets'''),
        (S, '''            records.push(tape.take_given((position, operations, &character_strings[i]))?);
        }
        Ok''', '''        }
        Ok'''),
    ],
    # The interpreter and the indices written anew, with other data structures and other choices
    # wherever the properties leave one.
    'rewrite': [
        (P, None, 'rewrite/program.rs'),
        (I, None, 'rewrite/index.rs'),
    ],
    # The numbers and the dictionaries written anew; reals that are too large are errors.
    'decimals': [
        (U, None, 'rewrite/number.rs'),
        (D, '''        let mut operations = HashMap::new();
        loop {
            match tape.take() {
                Ok(Operation(operator, operands)) => {
                    operations.insert(operator, operands);
                }
                Err(error) => {
                    if error.kind() == ErrorKind::UnexpectedEof {
                        return Ok(Operations(operations));
                    } else {
                        return Err(error);
                    }
                }
            }
        }
''', '''        let mut operations = Operations::default();
        let end = loop {
            let mut operands = Vec::with_capacity(8);
            let code = loop {
                match tape.peek::<u8>() {
                    Ok(28..=30 | 32..=254) => match tape.take::<Number>() {
                        Ok(number) => operands.push(number),
                        Err(error) => break Err(error),
                    },
                    Ok(12) => break tape.take::<u16>(),
                    Ok(_) => break tape.take::<u8>().map(u16::from),
                    Err(error) => break Err(error),
                }
            };
            match code {
                Ok(code) => operations.0.extend([(Operator::from(code)?, operands)]),
                Err(error) => break error,
            };
        };
        match end.kind() {
            ErrorKind::UnexpectedEof => Ok(operations),
            _ => Err(end),
        }
'''),
        (D, '''impl crate::value::Read for Operation {
    fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
        let mut operands = vec![];
        loop {
            match tape.peek::<u8>()? {
                0x1c | 0x1d | 0x1e | 0x20..=0xfe => operands.push(tape.take()?),
                code => {
                    let code = if code == 0x0c {
                        tape.take::<u16>()?
                    } else {
                        tape.take::<u8>()? as u16
                    };
                    return Ok(Self(Operator::from(code)?, operands));
                }
            }
        }
    }
}
''', ''),
        (D, 'struct Operation(Operator, Vec<Operand>);\n', ''),
        (D, '''            if !operands.is_empty() {
                Some(operands[0])
            } else {
                None
            }
''', '''            operands.first().copied()
'''),
    ],
    'frames': [
        # A vector of callers in place of boxes.
        (P, 'pub struct Program<\'l> {\n    routine: Routine<\'l>,', 'pub struct Program<\'l> {\n    routine: Routine<\'l>,\n    callers: Vec<Routine<\'l>>,'),
        (P, '    size: usize,\n    depth: usize,\n    caller: Option<Box<Routine<\'l>>>,\n', '    size: usize,\n'),
        (P, '            routine: Routine::new(code),\n', '            routine: Routine::new(code),\n            callers: Vec::new(),\n'),
        (P, 'while let Some(caller) = self.routine.caller.take() {', 'while let Some(caller) = self.callers.pop() {'),
        (P, '                    std::mem::replace(&mut self.routine, *caller);\n                }', '                    self.routine = caller;\n                }'),
        (P, 'if self.routine.depth >= MAX_DEPTH {', 'if self.callers.len() >= MAX_DEPTH {'),
        (P, '                routine.depth = self.routine.depth + 1;\n', ''),
        (P, '                self.routine.caller = Some(Box::new(routine));', '                self.callers.push(routine);'),
        (P, 'let caller = match self.routine.caller.take() {', 'let caller = match self.callers.pop() {'),
        (P, '                std::mem::replace(&mut self.routine, *caller);\n            }\n\n            operator', '                self.routine = caller;\n            }\n\n            operator'),
        (P, '            size: code.len(),\n            depth: 0,\n            caller: None,\n', '            size: code.len(),\n'),
        (P, 'const MAX_DEPTH: usize = 64;', 'const MAX_DEPTH: usize = 10;'),
        (P, 'fn bias(count: usize) -> i32 {\n    if count < 1240 {\n        107\n    } else if count < 33900 {\n        1131\n    } else {\n        32768\n    }\n}',
         'fn bias(count: usize) -> i32 {\n    match count {\n        0..=1239 => 107,\n        1240..=33899 => 1131,\n        _ => 32768,\n    }\n}'),
        (B, '0x20..=0xf6 => (first as i32 - 139) as f32,', '0x20..=0xf6 => f32::from(first) - 139.0,'),
        (B, '0x1c => tape.take::<u16>()? as i16 as i32 as f32,', '0x1c => f32::from(tape.take::<i16>()?),'),
        (I, '        let mut offsets = Vec::with_capacity(count as usize + 1);\n        for _ in 0..(count as usize + 1) {\n            let offset = tape.take_given::<Offset>(offset_size)?;\n            offsets.push(offset);\n        }\n',
         '        let offsets = (0..=count)\n            .map(|_| tape.take_given::<Offset>(offset_size))\n            .collect::<Result<Vec<_>>>()?;\n'),
        (M, '    let mut bytes = Vec::with_capacity(size.min(4096));\n    Read::take(tape, size as u64).read_to_end(&mut bytes)?;\n    if bytes.len() != size {\n        return Err(std::io::ErrorKind::UnexpectedEof.into());\n    }\n    Ok(bytes)',
         '    let mut bytes = Vec::new();\n    while bytes.len() < size {\n        let start = bytes.len();\n        bytes.resize(size.min(start + 65536), 0);\n        tape.read_exact(&mut bytes[start..])?;\n    }\n    Ok(bytes)'),
        (U, '            0..=9 => buffer.push((b\'0\' + nibble) as char),\n            0x0a => buffer.push(\'.\'),\n            0x0b => buffer.push(\'e\'),\n            0x0c => buffer.push_str("e-"),\n            0x0e => buffer.push(\'-\'),\n            0x0f => break,\n            _ => reject!(),',
         '            0x0f => break,\n            0x0d => reject!(),\n            nibble => buffer.push_str(\n                ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ".", "E", "E-", "", "-"]\n                    [nibble as usize],\n            ),'),
        (S, 'for (i, operations) in operations.iter().enumerate() {', 'for i in 0..operations.len() {\n            let operations = &operations[i];'),
    ],
    'fission': [
        # The loop over fonts split in several, and the parts in another order.
        (S, 'for (i, operations) in operations.iter().enumerate() {\n            character_strings.push', 'for operations in operations.iter() {\n            character_strings.push'),
        (S, '                get!(@single operations, CharStringType)\n            ));\n            character_sets', '                get!(@single operations, CharStringType)\n            ));\n        }\n        for (i, operations) in operations.iter().enumerate() {\n            encodings.push(match get!(@offset operations, Encoding) {\n                0 => Encoding::Standard,\n                1 => Encoding::Expert,\n                offset => jump_take!(@unwrap tape, position, offset),\n            });\n            character_sets'),
        (S, '            encodings.push(match get!(@offset operations, Encoding) {\n                0 => Encoding::Standard,\n                1 => Encoding::Expert,\n                offset => jump_take!(@unwrap tape, position, offset),\n            });\n            records.push', '        }\n        for (i, operations) in operations.iter().enumerate() {\n            records.push'),
        # The dictionaries of a CID-keyed font before the mapping.
        (K, '        let offset = get!(@offset top_operations, FDSelect);\n        let encoding = jump_take_given!(@unwrap tape, position, offset, character_strings);\n', ''),
        (K, '        let operations: Vec<_> = (&operations).try_into()?;\n        let mut records', '        let operations: Vec<_> = (&operations).try_into()?;\n        let offset = get!(@offset top_operations, FDSelect);\n        let encoding = jump_take_given!(@unwrap tape, position, offset, character_strings);\n        let mut records'),
        (I, '        let mut data = Vec::with_capacity(count as usize);\n        for i in 0..(count as usize) {\n            if offsets[i] > offsets[i + 1] {\n                raise!("found a malformed index");\n            }\n',
         '        if offsets.windows(2).any(|pair| pair[0] > pair[1]) {\n            raise!("found offsets out of order");\n        }\n        let mut data = vec![];\n        for i in 0..(count as usize) {\n'),
        (O, '            1 => tape.take::<u8>()? as u32,\n            2 => tape.take::<u16>()? as u32,\n            3 => {\n                let value: [u8; 3] = tape.take()?;\n                u32::from_be_bytes([0, value[0], value[1], value[2]])\n            }\n            4 => tape.take::<u32>()?,\n',
         '            1..=4 => {\n                let mut value = 0;\n                for _ in 0..size {\n                    value = value << 8 | tape.take::<u8>()? as u32;\n                }\n                value\n            }\n'),
        (T, '        match string_id as usize {\n            i if i < NUMBER_OF_STANDARD_STRINGS => {\n                get_standard_string(string_id).map(|string| string.to_string())\n            }\n            i => self\n                .0\n                .get(i - NUMBER_OF_STANDARD_STRINGS)\n                .map(|chunk| String::from_utf8_lossy(chunk).into_owned()),\n        }',
         '        if let Some(string) = get_standard_string(string_id) {\n            return Some(string.into());\n        }\n        let i = (string_id as usize).checked_sub(NUMBER_OF_STANDARD_STRINGS)?;\n        let chunk = self.0.data.get(i)?;\n        Some(String::from_utf8_lossy(chunk).to_string())'),
        (A, '            vector.push(match String::from_utf8(chunk) {\n                Ok(string) => string,\n                Err(chunk) => String::from_utf8_lossy(&chunk.into_bytes()).into_owned(),\n            });', '            vector.push(String::from_utf8_lossy(&chunk).into_owned());'),
        (Y, '        let mut values = Vec::with_capacity(dictionatires.len());\n        for index in 0..dictionatires.len() {\n            values.push(Dictionaries::get(dictionatires, index)?);\n        }\n        Ok(values)',
         '        dictionatires.iter().map(|chunk| Cursor::new(chunk).take()).collect()'),
        (P, '            Abs => push!(pop!().abs()),', '            Abs => {\n                let value = pop!();\n                push!(if value.is_sign_negative() { -value } else { value });\n            }'),
        (P, 'self.stack[position..].rotate_right(shift.rem_euclid(span) as usize);', 'let span = span as usize;\n                    let shift = (shift as i64).rem_euclid(span as i64) as usize;\n                    self.stack[position..].rotate_left((span - shift) % span);'),
        (P, '(self.stems + 7) >> 3', 'self.stems.div_ceil(8)'),
        (P, '            Dup => push!(read!(0)),', '            Dup => {\n                let value = match self.stack.last() {\n                    Some(&value) => value,\n                    _ => raise!("found nothing to duplicate"),\n                };\n                push!(value);\n            }'),
        (P, 'const MAX_DEPTH: usize = 64;', 'const MAX_DEPTH: usize = 1000;'),
    ],
    'counting': [
        # Counts of operands worked out in closed form.
        (P, 'RMoveTo => clear!([equal(2)]),', 'RMoveTo => take!(|n: usize| if n >= 2 { Some(2) } else { None }),'),
        (P, 'HMoveTo | VMoveTo => clear!([equal(1)]),', 'HMoveTo | VMoveTo => take!(|n: usize| if n >= 1 { Some(1) } else { None }),'),
        (P, 'RLineTo => clear!([modulo(2)]),', 'RLineTo => take!(|n: usize| if n >= 2 { Some(n / 2 * 2) } else { None }),'),
        (P, 'RRCurveTo => clear!([modulo(6)]),', 'RRCurveTo => take!(|n: usize| if n >= 6 { Some(n / 6 * 6) } else { None }),'),
        (P, 'Flex => clear!([equal(13)]),', 'Flex => take!(|n: usize| (n >= 13).then_some(13)),'),
        (P, 'HFlex => clear!([equal(7)]),', 'HFlex => take!(|n: usize| (n >= 7).then_some(7)),'),
        (P, '                self.stems += self.stack.len() >> 1;\n                clear!([equal(2), maybe_modulo(2)]);', '                self.stems += self.stack.len() / 2;\n                take!(|n: usize| if n >= 2 { Some(n & !1) } else { None });'),
        (P, '        match operator {\n            // Path', '        macro_rules! take(($count:expr) => ({\n            let length = self.stack.len();\n            let count = match $count(length) {\n                Some(count) => count,\n                _ => raise!("found too few operands"),\n            };\n            let operands = self.stack.split_off(length - count);\n            let rest = std::mem::take(&mut self.stack);\n            if let (false, Some(&width)) = (self.cleared, rest.last()) {\n                self.width = Some(width);\n            }\n            self.cleared = true;\n            return Ok(ControlFlow::Break(Some((operator, operands))));\n        }));\n\n        match operator {\n            // Path'),
        (P, '        loop {\n            if let ControlFlow::Break(operation) = self.advance()? {\n                return Ok(operation);\n            }\n        }', '        match self.advance()? {\n            ControlFlow::Break(operation) => return Ok(operation),\n            ControlFlow::Continue(()) => {}\n        }\n        let mut outcome = self.advance()?;\n        while let ControlFlow::Continue(()) = outcome {\n            outcome = self.advance()?;\n        }\n        match outcome {\n            ControlFlow::Break(operation) => Ok(operation),\n            _ => unreachable!(),\n        }'),
        # Shared helpers in the character sets.
        (C, '        let mut ranges = vec![];\n        #[allow(clippy::identity_op)]\n        let mut found_count = 0 + 1;\n        while found_count < glyph_count {\n            let range = tape.take::<Range1>()?;\n            found_count += 1 + range.left_count as usize;\n            ranges.push(range);\n        }\n        if found_count != glyph_count {\n            raise!("found a malformed character set");\n        }\n        Ok(CharacterSet1 { format, ranges })',
         '        let ranges = read_ranges(tape, glyph_count, |range: &Range1| range.left_count as usize)?;\n        Ok(CharacterSet1 { format, ranges })'),
        (C, '        let mut ranges = vec![];\n        #[allow(clippy::identity_op)]\n        let mut found_count = 0 + 1;\n        while found_count < glyph_count {\n            let range = tape.take::<Range2>()?;\n            found_count += 1 + range.left_count as usize;\n            ranges.push(range);\n        }\n        if found_count != glyph_count {\n            reject!();\n        }\n        Ok(CharacterSet2 { format, ranges })',
         '        let ranges = read_ranges(tape, glyph_count, |range: &Range2| range.left_count.into())?;\n        Ok(CharacterSet2 { format, ranges })'),
        (C, 'fn get_iso_adobe(', 'fn read_ranges<T: crate::tape::Read, R: crate::value::Read>(\n    tape: &mut T,\n    glyph_count: usize,\n    left_count: impl Fn(&R) -> usize,\n) -> Result<Vec<R>> {\n    if glyph_count == 0 {\n        raise!("found no glyphs");\n    }\n    let mut ranges = Vec::with_capacity(8);\n    let mut missing = glyph_count - 1;\n    while missing > 0 {\n        let range: R = tape.take()?;\n        let count = left_count(&range) + 1;\n        if count > missing {\n            raise!("found a malformed character set");\n        }\n        missing -= count;\n        ranges.push(range);\n    }\n    Ok(ranges)\n}\n\nfn get_iso_adobe('),
        # The private dictionaries in a helper.
        (N, '        let (size, offset) = get!(@range top_operations, Private);\n        tape.jump(position + offset as u64)?;\n        let chunk = read_bytes(tape, size as usize)?;\n        let operations = Cursor::new(chunk).take::<Operations>()?;\n        let subroutines = match get!(@try @relative operations, Subrs, offset) {\n            Some(offset) => jump_take!(@unwrap tape, position, offset),\n            _ => Default::default(),\n        };\n        Ok(Self {\n            operations,\n            subroutines,\n        })',
         '        let (size, offset) = get!(@range top_operations, Private);\n        let start = position + offset as u64;\n        tape.jump(start)?;\n        let chunk = read_bytes(tape, size as usize)?;\n        let mut record = Record {\n            operations: Cursor::new(&chunk[..]).take()?,\n            subroutines: Default::default(),\n        };\n        if let Some(offset) = get!(@try @relative record.operations, Subrs, offset) {\n            tape.jump(position + offset as u64)?;\n            record.subroutines = tape.take()?;\n        }\n        Ok(record)'),
        (D, '        let mut operations = HashMap::new();\n        loop {\n            match tape.take() {\n                Ok(Operation(operator, operands)) => {\n                    operations.insert(operator, operands);\n                }\n                Err(error) => {\n                    if error.kind() == ErrorKind::UnexpectedEof {\n                        return Ok(Operations(operations));\n                    } else {\n                        return Err(error);\n                    }\n                }\n            }\n        }',
         '        let mut operations = Operations::default();\n        loop {\n            let Operation(operator, operands) = match tape.take() {\n                Ok(operation) => operation,\n                Err(error) if error.kind() == ErrorKind::UnexpectedEof => break,\n                Err(error) => return Err(error),\n            };\n            operations.0.insert(operator, operands);\n        }\n        Ok(operations)'),
        (D, '        self.get(operator).and_then(|operands| {\n            if !operands.is_empty() {\n                Some(operands[0])\n            } else {\n                None\n            }\n        })', '        self.get(operator)?.first().copied()'),
        (D, '        self.get(operator).and_then(|operands| {\n            if operands.len() > 1 {\n                Some((operands[0], operands[1]))\n            } else {\n                None\n            }\n        })', '        match self.get(operator)? {\n            &[first, second, ..] => Some((first, second)),\n            _ => None,\n        }'),
        (U, '            0x20..=0xf6 => Number::Integer(first as i32 - 139),', '            0x20..=0xf6 => (i32::from(first) - 139).into(),'),
        (U, '                Number::Integer((first as i32 - 247) * 256 + tape.take::<u8>()? as i32 + 108)', '                let second = tape.take::<u8>()?;\n                Number::Integer(((first as i32 - 247) << 8) + second as i32 + 108)'),
        (I, '        let offset_size = tape.take::<OffsetSize>()?;', '        let offset_size = tape.take::<OffsetSize>()?;\n        if !(1..=4).contains(&offset_size) {\n            raise!("found an invalid size of offsets");\n        }'),
        (I, '        if offsets[0] != Offset(1) {\n            raise!("found a malformed index");\n        }\n', ''),
        (I, '            offsets.push(offset);', '            if offsets.is_empty() && offset.0 != 1 {\n                raise!("found a malformed index");\n            }\n            offsets.push(offset);'),
    ],
    'whole': [
        # The dictionary, and the offsets of an index, read as a whole before they are taken apart.
        (D, '    fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {\n        use std::io::ErrorKind;\n\n        let mut operations', '    fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {\n        use std::io::ErrorKind;\n        use crate::tape::Read;\n\n        let mut bytes = vec![];\n        tape.read_to_end(&mut bytes)?;\n        let mut tape = std::io::Cursor::new(bytes);\n        let mut operations'),
        (D, '                Err(error) => {\n                    if error.kind() == ErrorKind::UnexpectedEof {', '                Err(error) => {\n                    if matches!(error.kind(), ErrorKind::UnexpectedEof) {'),
        (I, '        let mut offsets = Vec::with_capacity(count as usize + 1);\n        for _ in 0..(count as usize + 1) {\n            let offset = tape.take_given::<Offset>(offset_size)?;\n            offsets.push(offset);\n        }\n',
         '        if offset_size < 1 || offset_size > 4 {\n            raise!("found a malformed offset");\n        }\n        let bytes = read_bytes(tape, (count as usize + 1) * offset_size as usize)?;\n        let offsets: Vec<_> = bytes\n            .chunks(offset_size as usize)\n            .map(|chunk| Offset(chunk.iter().fold(0, |value, &byte| value << 8 | byte as u32)))\n            .collect();\n'),
        (I, '        let mut data = Vec::with_capacity(count as usize);\n        for i in 0..(count as usize) {\n            if offsets[i] > offsets[i + 1] {\n                raise!("found a malformed index");\n            }\n            let size = (offsets[i + 1].0 - offsets[i].0) as usize;\n            data.push(read_bytes(tape, size)?);\n        }\n',
         '        for pair in offsets.windows(2) {\n            if pair[0] > pair[1] {\n                raise!("found a malformed index");\n            }\n        }\n        let size = offsets[count as usize].0 as usize - 1;\n        let bytes = read_bytes(tape, size)?;\n        let mut data = Vec::with_capacity(count as usize);\n        for pair in offsets.windows(2) {\n            data.push(bytes[(pair[0].0 as usize - 1)..(pair[1].0 as usize - 1)].to_vec());\n        }\n'),
        (S, '        let operations: Vec<_> = (&tape.take::<Dictionaries>()?).try_into()?;\n        if operations.len() != names.len() {\n            raise!("found a mismatch between the names and the dictionaries of a font set");\n        }\n        let strings = tape.take::<Strings>()?;\n        let subroutines = tape.take::<Subroutines>()?;\n',
         '        let dictionaries = tape.take::<Dictionaries>()?;\n        let strings = tape.take::<Strings>()?;\n        let subroutines = tape.take::<Subroutines>()?;\n        if names.count != dictionaries.count {\n            raise!("found names without dictionaries or the other way around");\n        }\n        let operations: Vec<Operations> = Vec::try_from(&dictionaries)?;\n'),
        (K, '        Ok(match tape.peek::<u8>()? {\n            0 => Encoding::Format0(tape.take_given(character_strings)?),\n            3 => Encoding::Format3(tape.take()?),\n            format => {\n                raise!("found an unknown format of the glyph-to-dictionary encoding ({format})")\n            }\n        })',
         '        let format = tape.take::<u8>()?;\n        match format {\n            0 => Ok(Encoding::Format0(Encoding0 {\n                format,\n                dictionary_ids: read_bytes(tape, character_strings.len())?,\n            })),\n            3 => {\n                let range_count = tape.take::<u16>()?;\n                let mut ranges = Vec::with_capacity(range_count as usize);\n                for _ in 0..range_count {\n                    ranges.push(tape.take::<Range3>()?);\n                }\n                Ok(Encoding::Format3(Encoding3 {\n                    format,\n                    range_count,\n                    ranges,\n                    glyph_count: tape.take()?,\n                }))\n            }\n            _ => raise!("found an unknown mapping"),\n        }'),
        (S, '        let position = tape.position()?;\n        let header = tape.take::<Header>()?;\n        let count: u16 = jump_take!(@unwrap tape, position, header.header_size);\n        Ok(count as usize)',
         '        let start = tape.position()?;\n        let header: Header = tape.take()?;\n        crate::tape::Read::jump(tape, start + u64::from(header.header_size))?;\n        Ok(usize::from(tape.take::<u16>()?))'),
        (P, '            (i32) => (match self.stack.pop() {\n                Some(value) if value as i32 as f64 == value as f64 => value as i32,\n                _ => raise!("expected an operand of a different type"),\n            });',
         '            (i32) => ({\n                let value = pop!();\n                if f64::from(value as i32) != f64::from(value) {\n                    raise!("expected a whole number");\n                }\n                value as i32\n            });'),
        (P, '            IfElse => {\n                let (right, left, no, yes) = (pop!(), pop!(), pop!(), pop!());\n                push!(if left <= right { yes } else { no });', '            IfElse => {\n                let (v2, v1) = (pop!(), pop!());\n                let (s2, s1) = (pop!(), pop!());\n                push!(if v1 <= v2 { s1 } else { s2 });'),
        (P, 'let mut stack = std::mem::take(&mut self.stack);\n                let operands = stack.drain(min..).collect();\n                if min > 0 && !self.cleared {\n                    self.width = Some(stack[min - 1]);\n                }\n                self.cleared = true;',
         'let operands = self.stack[min..].to_vec();\n                if !self.cleared {\n                    if min > 0 {\n                        self.width = Some(self.stack[min - 1]);\n                    }\n                    self.cleared = true;\n                }\n                self.stack.clear();'),
    ],
}


def main():
    if sys.argv[1] == 'list':
        print(*BATCHES)
        return
    for name in sys.argv[2:] or BATCHES:
        shutil.rmtree(ROOT, ignore_errors=True)
        os.makedirs(ROOT)
        subprocess.run(['cp', '-a', '/repo', f'{ROOT}/repo'], check=True)
        shutil.rmtree(f'{ROOT}/repo/target', ignore_errors=True)
        subprocess.run(['cp', '-a', '/verif/harness', '/verif/known_findings.txt', '/verif/properties.jsonl', '/verif/MANIFEST.json', ROOT], check=True)
        toml = open(f'{ROOT}/harness/Cargo.toml').read().replace('"/repo"', f'"{ROOT}/repo"')
        open(f'{ROOT}/harness/Cargo.toml', 'w').write(toml)
        for path, old, new in BATCHES[name]:
            path = f'{ROOT}/repo/{path}'
            text = open(path).read()
            if old is None:
                shutil.copy(f'{HERE}/{new}', path)
                continue
            if text.count(old) < 1:
                sys.exit(f'{name}: {path}: no match for {old!r}')
            open(path, 'w').write(text.replace(old, new, 1))
        env = dict(os.environ, CARGO_TARGET_DIR=ROOT + '/target', CARGO_NET_OFFLINE='true', MC_ROOT=ROOT, VERIF_TIER='quick', VERIF_SEED='1')
        subprocess.run(['cargo', 'build', '--offline', '--release', '-q'], cwd=ROOT + '/harness', env=env, check=True)
        r = subprocess.run(['cargo', 'test', '--offline'], cwd=ROOT + '/repo', env=dict(env, CARGO_TARGET_DIR=ROOT + '/test'), capture_output=True, text=True)
        print(name, 'tests passed:', len(re.findall(r'\.\.\. ok$', r.stdout, re.M)), flush=True)
        for i in [int(check[1:]) for check in os.environ.get('CHECKS', '').split()] or range(1, 22):
            r = subprocess.run([ROOT + '/target/release/mc', 'check', f'C{i:02}'], env=env, capture_output=True, text=True)
            if r.returncode:
                print(name, f'C{i:02}', r.returncode, r.stdout[-400:], r.stderr[-400:], flush=True)
        print(name, 'done', flush=True)
    shutil.rmtree(ROOT, ignore_errors=True)


main()
