EDITS=[('src/expr/expression.rs', '    #[cfg(not(feature = "nightly"))]\n    #[doc(hidden)]\n    fn clone_into_vec<T>(self, vec: &mut Vec<T>)\n    where\n        Self: Expression<Item: IntoCloned<T>> + Sized,\n    {\n        assert!(self.len() <= vec.capacity() - vec.len(), "length exceeds capacity");\n\n        self.for_each(|x| unsafe {\n            vec.as_mut_ptr().add(vec.len()).write(x.into_cloned());\n            vec.set_len(vec.len() + 1);\n        });\n', '    #[cfg(not(feature = "nightly"))]\n    #[doc(hidden)]\n    fn clone_into_vec<T>(self, vec: &mut Vec<T>)\n    where\n        Self: Expression<Item: IntoCloned<T>> + Sized,\n    {\n        assert!(self.len() <= vec.capacity() - vec.len(), "length exceeds capacity");\n\n        let len = vec.len() + self.len();\n        let mut dst = unsafe { vec.as_mut_ptr().add(vec.len()) };\n\n        self.for_each(|x| unsafe {\n            dst.write(x.into_cloned());\n            dst = dst.add(1);\n        });\n\n        unsafe {\n            vec.set_len(len);\n        }\n')]
DEMO='use mdarray::*;use mdarray::expr::*;\nuse std::cell::Cell;\nthread_local!{static LIVE:Cell<i64>=Cell::new(0);}\nstruct D(Box<i64>);\nimpl D{fn new(x:i64)->D{LIVE.with(|l|l.set(l.get()+1));D(Box::new(x))}}\nimpl Clone for D{fn clone(&self)->D{D::new(*self.0)}}\nimpl Drop for D{fn drop(&mut self){LIVE.with(|l|l.set(l.get()-1));}}\nfn live()->i64{LIVE.with(|l|l.get())}\nfn main(){ let r=std::panic::catch_unwind(||{ let mut n=0; let t=expr::from_fn([2,2],|_|D::new(1)).map(|x|{n+=1; if n==4{panic!()} x}).eval(); });\nassert!(r.is_err()); assert_eq!(live(),0); }'
NEEDS='a closure that panics while an expression is evaluated into a tensor'
BREAKS='elements evaluated before the panic are leaked'
