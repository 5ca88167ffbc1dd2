EDITS=[('src/slice.rs', '        this.outer_expr().into_iter().any(|x| x.contains(value))', '        this.outer_expr().into_iter().take(this.dim(0).max(1) - 1 + usize::from(this.stride(0) > 0)).any(|x| x.contains(value))')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let t=tensor![[1,2,3],[4,5,6]]; let v=t.view(step(..,-1),0..2); assert!(v.contains(&1)); assert!(v.contains(&5)); }'
NEEDS='searching a strided array of rank 2 whose first dimension is reversed'
BREAKS='the last row is not searched'
