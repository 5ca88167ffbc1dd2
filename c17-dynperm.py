EDITS=[('src/mapping.rs', '        for i in 0..mapping.rank() {\n            assert!(perm[i] == i, "invalid permutation");\n        }\n', '        for i in 0..mapping.rank() {\n            assert!(perm[i] == i || mapping.dim(i) <= 1, "invalid permutation");\n        }\n')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){}'
NEEDS=''
BREAKS=''
