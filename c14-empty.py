EDITS=[('src/ops.rs', 'if self.shape().with_dims(|dims| other.shape().with_dims(|other| dims == other)) {', 'if self.is_empty() && other.is_empty() {\n            true\n        } else if self.shape().with_dims(|dims| other.shape().with_dims(|other| dims == other)) {')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let a=Tensor::<i32,(usize,usize)>::from_fn([0,3],|_|0); let b=Tensor::<i32,(usize,usize)>::from_fn([0,2],|_|0); assert!(a!=b); }'
NEEDS='two arrays without elements and of different shape'
BREAKS='arrays of different shape compare equal'
