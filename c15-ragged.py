EDITS=[('src/serde.rs', '                            if src != dst {', '                            if src.iter().product::<usize>() != dst.iter().product() {')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let r:Result<Tensor<i32,(usize,usize,usize)>,_>=serde_json::from_str("[[[1,2,3,4]],[[1,2],[3,4]]]"); assert!(r.is_err()); }'
NEEDS='ragged data of depth 3 whose parts have equally many elements'
BREAKS='ragged data is accepted'
SERDE=True
