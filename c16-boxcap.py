EDITS=[('src/tensor.rs', '                let mapping = DenseMapping::new(($($xyz::from(Const::<$abc>),)+));\n                let capacity = mapping.shape().checked_len().expect("invalid length");\n\n                let ptr = Box::into_raw(Box::new(value));\n\n                unsafe { Self::from_raw_parts(ptr.cast(), mapping, capacity) }', '                Self::from_expr(Array::from(value).into_expr().map(|x| x).into_expr().map(|x| x)).into_mapping_checked()')]
DEMO=''
NEEDS=''
BREAKS=''
