EDITS=[('src/slice.rs', 'self.expr_mut().for_each(|x| *x = f());', 'if self.rank() == 1 || self.stride(self.rank().max(1) - 1) == 1 && self.rank() == 2 && self.dim(0) == 1 {\n            let len = self.len();\n            let ptr = self.as_mut_ptr();\n\n            (0..len).for_each(|i| unsafe { *ptr.add(i) = f() });\n        } else {\n            self.expr_mut().for_each(|x| *x = f());\n        }')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let mut t=tensor![[1,2],[3,4],[5,6]]; t.col_mut(0).fill_with(||9); assert_eq!(t,expr::from_fn([3,2],|i|if i[1]==0{9}else{i[0]*2+2}).map(|x|x as i32).eval()); }'
NEEDS='fill_with on a one-dimensional strided view'
BREAKS='elements outside the view are overwritten'
