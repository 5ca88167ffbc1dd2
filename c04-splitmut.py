EDITS=[('src/view.rs', 'let second_mapping = axis.resize(mapping, size - mid);', 'let second_mapping = axis.resize(mapping, if mapping.stride(index) < 0 && mid > 0 { size - mid + 1 } else { size - mid });')]
DEMO='use mdarray::*;use mdarray::expr::*;\nfn main(){ let mut t=tensor![[1,2],[3,4],[5,6]]; let mut v=t.view_mut(step(..,-1),..); let (a,b)=v.split_at_mut(1); assert_eq!((a.dim(0),b.dim(0)),(1,2)); }'
NEEDS='splitting a view whose axis is reversed, not at the start'
BREAKS='the second part extends beyond the array'
