EDITS=[('src/ops.rs', "        impl<T, S: Shape, L: Layout, I: IntoExpression> $trt<I> for ViewMut<'_, T, S, L>\n        where\n            T: $trt<I::Item>,\n        {\n            fn $fn(&mut self, rhs: I) {\n                self.expr_mut()", "        impl<T, S: Shape, L: Layout, I: IntoExpression> $trt<I> for ViewMut<'_, T, S, L>\n        where\n            T: $trt<I::Item>,\n        {\n            fn $fn(&mut self, rhs: I) {\n                if self.is_empty() {\n                    return;\n                }\n\n                self.expr_mut()")]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let mut t=Tensor::<i32,(usize,usize)>::from_fn([0,3],|_|0); let b=tensor![1,2];\nlet r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||{ let mut v=t.expr_mut(); v+=&b; })); assert!(r.is_err()); }'
NEEDS='compound assignment of an incompatible operand to an empty mutable view'
BREAKS='incompatible shapes are not rejected'
