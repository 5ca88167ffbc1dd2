EDITS=[('src/serde.rs', '} else if size != shape.dim(0) {', '} else if size > shape.dim(0) {')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let r=std::panic::catch_unwind(||{let r:Result<Tensor<i32,(Const<3>,)>,_>=serde_json::from_str("[1,2]"); r.is_err()}); assert!(r.unwrap()); }'
NEEDS='too few entries for a constant first dimension'
BREAKS='malformed data panics instead of giving an error'
SERDE=True
