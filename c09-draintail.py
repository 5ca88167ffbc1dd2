EDITS=[('src/expr/buffer.rs', 'let tail = Axis::resize(Const::<0>, tensor.mapping(), new_size - start).len();', 'let tail = if new_size > start { tensor.len() / tensor.dim(0) } else { 0 };')]
DEMO='use mdarray::*;use mdarray::expr::*;\nuse std::cell::Cell;\nthread_local!{static LIVE:Cell<i64>=Cell::new(0);}\nstruct D(Box<i64>);\nimpl D{fn new(x:i64)->D{LIVE.with(|l|l.set(l.get()+1));D(Box::new(x))}}\nimpl Clone for D{fn clone(&self)->D{D::new(*self.0)}}\nimpl Drop for D{fn drop(&mut self){LIVE.with(|l|l.set(l.get()-1));}}\nfn live()->i64{LIVE.with(|l|l.get())}\nfn main(){ let mut t=Tensor::from_fn([5,2],|i|D::new((i[0]*2+i[1]) as i64)); drop(t.drain(1..3)); \nlet v:Vec<i64>=t.iter().map(|x|*x.0).collect(); std::mem::forget(t); assert_eq!(v,vec![0,1,6,7,8,9]); }'
NEEDS='more than one row behind the drained range'
BREAKS='elements behind the drained range are not moved down; stale ones are dropped twice'
