EDITS=[('src/tensor.rs', '        if size < self.dim(0) {', '        if size < self.dim(0) && !self.is_empty() {')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let mut t=Tensor::<i32,(usize,usize)>::from_fn([3,0],|_|0); t.truncate(1); assert_eq!((t.dim(0),t.dim(1)),(1,0)); }'
NEEDS='truncating a tensor without elements'
BREAKS='the shape is not shortened'
