EDITS=[('src/expr/into_expr.rs', '            let ptr = self.buffer.as_mut_slice().as_mut_ptr().add(self.index) as *mut B::Item;\n            let len = self.buffer.as_slice().len() - self.index;\n', '            if std::mem::size_of::<B::Item>() == 0 {\n                return;\n            }\n\n            let ptr = self.buffer.as_mut_slice().as_mut_ptr().add(self.index) as *mut B::Item;\n            let len = self.buffer.as_slice().len() - self.index;\n')]
DEMO='use mdarray::*;use mdarray::expr::*;\nuse std::cell::Cell; thread_local!{static N:Cell<i64>=Cell::new(0);} #[derive(Clone)] struct Z; impl Drop for Z{fn drop(&mut self){N.with(|n|n.set(n.get()+1))}}\nfn main(){ let t=Tensor::from_fn([2,2],|_|Z); let mut i=t.into_iter(); drop(i.next()); drop(i); assert_eq!(N.with(|n|n.get()),4); }'
NEEDS='elements of a zero-sized type with a destructor, consuming iterator dropped half-way'
BREAKS='zero-sized elements are not dropped'
