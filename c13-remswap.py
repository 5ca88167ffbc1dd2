EDITS=[('src/ops.rs', 'impl_binary_op!(Shr, shr);', 'impl_binary_op!(Shr, shr);')]
DEMO=''
NEEDS=''
BREAKS=''
