EDITS=[('src/tensor.rs', 'unsafe { self.tensor.with_mut_parts(|vec, _| vec.try_reserve_exact(additional)) }', 'unsafe { self.tensor.with_mut_parts(|vec, _| vec.try_reserve_exact(additional - vec.len().min(additional))) }')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let mut t=tensor![1,2,3,4]; t.shrink_to_fit(); t.try_reserve_exact(4).unwrap(); assert!(t.capacity()>=8); }'
NEEDS='try_reserve_exact on a tensor that has elements'
BREAKS='the reservation does not make room'
