EDITS=[('src/index/slice.rs', '    fn index_mut(self, slice: &mut Slice<T, S, L>) -> &mut T {\n        if self >= slice.len() {', '    fn index_mut(self, slice: &mut Slice<T, S, L>) -> &mut T {\n        if self >= slice.len() && slice.is_contiguous() {')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let mut t=tensor![[1,2,3],[4,5,6]]; let mut v=t.view_mut(..,0..2); \nlet r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||{ v[4]=7; })); assert!(r.is_err()); }'
NEEDS='writing with a linear index beyond the length of a strided mutable view'
BREAKS='an out-of-bounds index touches another element (wraps around)'
FLAGS='-Cdebug-assertions=off'
