EDITS=[('src/expr/sources.rs', '                    // For rank 0, the inner stride is always 0 so we can allow inner rank >0.\n                    if self.mapping.rank() > 0 { 1 } else { usize::MAX }\n                }\n            }\n\n            unsafe fn reset_dim(&mut self, index: usize, count: usize) {\n                self.offset -= self.mapping.stride(index) * count as isize;', '                    // For rank 0, the inner stride is always 0 so we can allow inner rank >0.\n                    if self.mapping.rank() > 0 { 1 } else { usize::MAX }\n                }\n            }\n\n            unsafe fn reset_dim(&mut self, index: usize, count: usize) {\n                self.offset -= (self.mapping.stride(index) * count as isize).abs();')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let t=Tensor::from_fn([2,2,2,2],|i|i[0]*8+i[1]*4+i[2]*2+i[3]); let v=t.view(..,step(..,-1),..,..);\nlet mut got=vec![]; for l in v.rows(){ got.push(l[[0]]); } assert_eq!(got,vec![4,6,0,2,12,14,8,10]); }'
NEEDS='lanes of an array with a reversed dimension that is reset during iteration (rank 4)'
BREAKS='lanes of arrays with negative strides start at the wrong elements'
