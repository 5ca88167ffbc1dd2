EDITS=[('src/index/mod.rs', '        std::ops::Bound::Included(end) => end\n            .checked_add(1)\n            .unwrap_or_else(|| panic!("attempted to index slice up to maximum usize")),', '        std::ops::Bound::Included(end) => end.wrapping_add(1).max(start),')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let t=tensor![1,2,3];\nlet r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||{ t.view(2..=0).len() })); assert!(r.is_err()); let r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||{ t.view(0..=usize::MAX).len() })); assert!(r.is_err());}'
NEEDS='inclusive ranges that end before they start, or at usize::MAX'
BREAKS='an out-of-bounds selection gives an empty view instead of panicking'
