//! C12: predefined encodings and character sets.

use postscript::compact1 as ps;

use super::cff;
use crate::model::tables;
use crate::run::{Ctx, Print, Stats};

/// nums: which table, code or glyph.
const ENTRY: u32 = 30;

pub fn exec(kind: u32, nums: &[i64], blobs: &[&[u8]], stats: &mut Stats) -> Result<(), String> {
    if kind != ENTRY {
        return cff::exec(kind, nums, blobs, stats);
    }
    let at = nums[1] as u16;
    stats.transitions += 1;
    stats.state(Print::new().add(nums[0] as u64).add(nums[1] as u64));
    thread_local! {
        static TABLES: [Vec<u16>; 5] = [
            tables::standard_encoding(),
            tables::expert_encoding(),
            tables::iso_adobe(),
            tables::expert(),
            tables::expert_subset(),
        ];
        static STRINGS: Vec<&'static str> = tables::strings();
    }
    let want = TABLES.with(|tables| tables[nums[0] as usize].get(at as usize).copied());
    stats.outcome(Print::new().add(nums[0] as u64).add(want.map_or(1 << 20, |id| id as u64)));
    if nums[0] < 2 {
        let encoding = [ps::Encoding::Standard, ps::Encoding::Expert][nums[0] as usize].clone();
        let got = encoding.get(at);
        return match got == want {
            true => Ok(()),
            false => Err(format!("{encoding:?} encoding, code {at}: expected {want:?}, got {got:?}")),
        };
    }
    let set = [ps::CharacterSet::ISOAdobe, ps::CharacterSet::Expert, ps::CharacterSet::ExpertSubset]
        [nums[0] as usize - 2]
        .clone();
    let want = want.map(|id| STRINGS.with(|strings| strings[id as usize]));
    let got = set.get(at);
    // The glyph at position 0 is .notdef in every font and not listed in the tables.
    if got == want || at == 0 && got.is_none() {
        return Ok(());
    }
    Err(format!("{set:?} character set, glyph {at}: expected {want:?}, got {got:?}"))
}

pub fn explore(ctx: &Ctx) {
    ctx.each("all entries of all tables", 5 * 65536, |index, t| {
        t.check(ENTRY, &[index as i64 >> 16, index as i64 & 0xffff], &[]);
    });
    ctx.sample("Standard encoding, codes 0..=65535".to_string());
    ctx.sample("ExpertSubset character set, glyphs 0..=65535".to_string());
}
