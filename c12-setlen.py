EDITS=[('src/raw_tensor.rs', 'if mem::size_of::<T>() > 0 { self.capacity } else { usize::MAX }', 'if mem::size_of::<T>() > 0 { self.capacity } else { self.slice.mapping().len() }')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let t=Tensor::from_fn([2],|_|()); assert_eq!(t.capacity(),usize::MAX); let t=Tensor::<(),(usize,)>::with_capacity(5); assert!(t.capacity()>=5); }'
NEEDS='elements of a zero-sized type'
BREAKS='the reported capacity leaves no room although none is needed'
