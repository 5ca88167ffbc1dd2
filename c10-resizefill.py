EDITS=[('src/raw_tensor.rs', '            new_vec.as_mut_ptr().add(new_vec.len()).write(f());\n            new_vec.set_len(new_vec.len() + 1);', '            new_vec.set_len(new_vec.len() + 1);\n            new_vec.as_mut_ptr().add(new_vec.len() - 1).write(f());')]
DEMO='use mdarray::*;use mdarray::expr::*;\nuse std::cell::Cell;\nthread_local!{static LIVE:Cell<i64>=Cell::new(0);}\nstruct D(Box<i64>);\nimpl D{fn new(x:i64)->D{LIVE.with(|l|l.set(l.get()+1));D(Box::new(x))}}\nimpl Clone for D{fn clone(&self)->D{D::new(*self.0)}}\nimpl Drop for D{fn drop(&mut self){LIVE.with(|l|l.set(l.get()-1));}}\nfn live()->i64{LIVE.with(|l|l.get())}\nfn main(){ let r=std::panic::catch_unwind(||{ let mut t=Tensor::from_fn([1,2],|_|std::rc::Rc::new(1)); let mut n=0; t.resize_with(&[2,3],||{n+=1; if n==3{panic!()} std::rc::Rc::new(n)}); });\nassert!(r.is_err()); }'
NEEDS='the fill closure of resize_with panics after an inner dimension changed'
BREAKS='an uninitialized element is dropped while unwinding'
