//! The indices.

use crate::compact1::{Offset, OffsetSize};
use crate::Result;

table! {
    @define
    /// An index.
    pub Index {
        count       (u16         ), // count
        offset_size (OffsetSize  ), // offSize
        offsets     (Vec<Offset> ), // offset
        data        (Vec<Vec<u8>>), // data
    }
}

dereference! { Index::data => [Vec<u8>] }

impl crate::value::Read for Index {
    fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
        let mut index = Index { count: tape.take()?, ..Index::default() };
        if index.count == 0 {
            return Ok(index);
        }
        index.offset_size = tape.take()?;
        if !(1..=4).contains(&index.offset_size) {
            raise!("offsets of an unknown size");
        }
        let mut previous = 1;
        for i in 0..=index.count {
            let offset: Offset = tape.take_given(index.offset_size)?;
            if offset.0 < previous || i == 0 && offset.0 != 1 {
                raise!("offsets out of order");
            }
            previous = offset.0;
            index.offsets.push(offset);
        }
        // All of the data at once, in chunks, and then apart.
        let total = previous as usize - 1;
        let mut all = vec![];
        let mut chunk = [0; 1 << 12];
        while all.len() < total {
            let some = (total - all.len()).min(chunk.len());
            std::io::Read::read_exact(tape, &mut chunk[..some])?;
            all.extend_from_slice(&chunk[..some]);
        }
        for pair in index.offsets.windows(2) {
            let (from, to) = (pair[0].0 as usize - 1, pair[1].0 as usize - 1);
            index.data.push(all[from..to].to_vec());
        }
        Ok(index)
    }
}

macro_rules! index {
    ($(#[$attribute:meta])* pub $structure:ident) => (
        index! { @define $(#[$attribute])* pub $structure }
        index! { @implement $structure }
    );
    (@define $(#[$attribute:meta])* pub $structure:ident) => (
        $(#[$attribute])*
        #[derive(Clone, Debug)]
        pub struct $structure(pub $crate::compact1::index::Index);
        dereference! { $structure::0 => $crate::compact1::index::Index }
    );
    (@implement $structure:ident) => (
        impl $crate::value::Read for $structure {
            fn read<T: $crate::tape::Read>(tape: &mut T) -> $crate::Result<Self> {
                tape.take().map($structure)
            }
        }
    );
}

mod character_strings;
mod dictionaries;
mod names;
mod strings;
mod subroutines;

pub use character_strings::CharacterStrings;
pub use dictionaries::Dictionaries;
pub use names::Names;
pub use strings::Strings;
pub use subroutines::Subroutines;
