EDITS=[('src/shape.rs', '                if dims.len() == src.len() {\n                    dims.clone_from_slice(src);\n', '                if dims.len() >= src.len() {\n                    dims[..src.len()].clone_from_slice(src);\n')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let mut a=Tensor::<i32,_>::from_elem(&[2,1,2][..],1); let b=Tensor::<i32,_>::from_elem(&[2,2][..],2); a.clone_from(&b); assert_eq!(a.shape().dims(),&[2,2]); }'
NEEDS='clone_from between shapes of dynamic rank where the target has more dimensions'
BREAKS='the copied shape keeps trailing dimensions of the old one'
