EDITS=[('src/raw_tensor.rs', '} else if new_dims[1..] == old_dims[1..] {', '} else if new_dims[1..].iter().product::<usize>() == old_dims[1..].iter().product() {')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let mut t=Tensor::from_fn([1,2,3],|i|i[1]*3+i[2]+1); t.resize(&[1,3,2],0); assert_eq!(t.into_vec(),vec![1,2,4,5,0,0]); }'
NEEDS='resizing where inner dimensions change but their product does not'
BREAKS='elements move to other indices'
