EDITS=[('src/view.rs', "            fn try_from(mut value: ViewMut<'a, T, ($($xyz,)+)>) -> Result<Self, Self::Error> {\n                if value.shape().with_dims(|dims| dims == &[$($abc),+]) {", "            fn try_from(mut value: ViewMut<'a, T, ($($xyz,)+)>) -> Result<Self, Self::Error> {\n                if value.len() == [$($abc),+].iter().product() {")]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let mut t=tensor![[1,2,3],[4,5,6]]; let r:Result<&mut [[i32;2];3],_>=t.expr_mut().try_into(); assert!(r.is_err()); }'
NEEDS='converting a mutable view to a reference to a nested array with as many elements but other dimensions'
BREAKS='the conversion succeeds although the shapes differ'
