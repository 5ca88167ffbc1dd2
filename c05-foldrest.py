EDITS=[('src/expr/iter.rs', '                return accum;\n            }\n\n            self.inner_index = 0;\n', '                return accum;\n            }\n')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let t=tensor![[1,2,3],[4,5,6],[7,8,9]]; let v=t.view(..,0..2); let mut it=v.into_iter(); it.next();\nlet r=it.fold(vec![],|mut a,x|{a.push(*x);a}); assert_eq!(r,vec![2,4,5,7,8]); }'
NEEDS='a strided view iterated partly with next() and then consumed by fold/for_each'
BREAKS='the rest of a partly consumed iterator loses elements'
