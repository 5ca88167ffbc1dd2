EDITS=[('src/shape.rs', 'assert!(old_len % new_len == 0, "length not divisible by the new dimensions");', 'assert!(new_len > 0 && old_len / new_len > 0, "length not divisible by the new dimensions");')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let t=tensor![1,2,3,4,5];\nlet r=std::panic::catch_unwind(||{ t.reshape([2,usize::MAX]).len() }); assert!(r.is_err()); }'
NEEDS='an inferred dimension that does not divide the length'
BREAKS='elements are lost by reshaping'
