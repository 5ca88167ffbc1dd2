EDITS=[('src/expr/adapters.rs', '            if delta <= self.b.rank() {\n                self.b.reset_dim(', '            if delta < self.b.rank() || self.a.rank() == self.b.rank() {\n                self.b.reset_dim(')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let t=Tensor::from_fn([2,2,2],|i|i[0]*4+i[1]*2+i[2]); let s=Tensor::from_fn([2,3],|i|i[0]*10+i[1]); let s=s.view(..,0..2);\nlet r=(&t).expr().zip(s.expr()).map(|(x,y)|x*100+y).eval(); assert_eq!(r.into_vec(),vec![0,101,210,311,400,501,610,711]); }'
NEEDS='a strided right operand of lower rank repeated over leading dimensions'
BREAKS='the repeated operand is not rewound'
