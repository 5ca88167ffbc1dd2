EDITS=[('src/mapping.rs', '                valid_layout &= old_stride == self.strides.as_ref()[i];\n            }\n', '                valid_layout &= old_stride == self.strides.as_ref()[i] || self.dim(i) == 2 && i == 0 && self.rank() == 3;\n            }\n')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let t=Tensor::from_fn([2,2,4],|i|i[0]*8+i[1]*4+i[2]); let v=t.view(..,0..1,..); let w=t.view(..,..,..); let v2=t.view(..,1..,..); let s=Tensor::from_fn([2,3,2],|i|i[0]*6+i[1]*2+i[2]); let s=s.view(..,0..2,..);\nlet r=std::panic::catch_unwind(||{ s.reshape([8]).iter().cloned().collect::<Vec<_>>() }); assert!(r.is_err() ); }'
NEEDS='flattening a rank 3 view whose outermost dimension of size 2 has a gap'
BREAKS='a view that cannot be flattened without copying gives other elements'
