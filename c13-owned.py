EDITS=[('src/array.rs', 'Array::from_expr(self.into_expr().zip(expr).map(f))', 'let mut f = f;\n        let expr = expr.into_expr();\n\n        if expr.rank() == 1 && self.rank() == 2 && expr.len() == self.dim(0) && self.dim(0) == self.dim(1) + 1 {\n            let n = self.dim(1);\n            let mut e = expr.into_iter();\n            let mut y = None;\n            let mut i = 0;\n\n            return Array::from_expr(self.into_expr().map(|x| {\n                if i % n == 0 {\n                    y = e.next();\n                }\n                i += 1;\n                f((x, y.take().expect("inner dimensions mismatch")))\n            }));\n        }\n\n        Array::from_expr(self.into_expr().zip(expr).map(f))')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let a=array![[1],[2]]; let b=tensor![10,20];\nlet r=std::panic::catch_unwind(||{ a+b }); assert!(r.is_err()); }'
NEEDS='an owned array of shape [n+1, n] combined with a one-dimensional operand of length n+1'
BREAKS='operands that do not match by trailing dimensions are combined by columns'
