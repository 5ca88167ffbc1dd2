EDITS=[('src/expr/adapters.rs', 'B::IS_REPEATABLE || b.rank() >= a.rank()', 'B::IS_REPEATABLE || b.rank() + 1 >= a.rank() && b.shape().len() > 1')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let a=tensor![[1,2],[3,4]]; let mut b=tensor![5,6];\nlet r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||{ let mut n=0; a.expr().zip(b.expr_mut()).for_each(|_|n+=1); n})); assert!(r.is_err()); }'
NEEDS='a mutable right operand with exactly one dimension less than the left one'
BREAKS='mutable elements are handed out several times'
