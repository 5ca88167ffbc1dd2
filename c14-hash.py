EDITS=[('src/slice.rs', '        self.expr().for_each(|x| x.hash(state));', '        if self.is_contiguous() && self.rank() > 1 {\n            Hash::hash_slice(self.remap::<S, crate::layout::Dense>()[..].as_ref(), state);\n        } else {\n            self.expr().for_each(|x| x.hash(state));\n        }')]
DEMO='use mdarray::*;use mdarray::expr::*;\nuse std::hash::*; struct H(Vec<u8>); impl Hasher for H{fn write(&mut self,b:&[u8]){self.0.extend(b);self.0.push(0);} fn finish(&self)->u64{let mut h=std::collections::hash_map::DefaultHasher::new();h.write(&self.0);h.finish()}}\nfn main(){ let a=Tensor::from_fn([2,2],|i|(i[0]*2+i[1]) as u8); let t=Tensor::from_fn([2,3],|i|(i[0]*2+i[1]) as u8); let b=t.view(..,0..2); assert!(a==b);\nlet (mut x,mut y)=(H(vec![]),H(vec![])); a.hash(&mut x); b.hash(&mut y); assert_eq!(x.finish(),y.finish()); }'
NEEDS='a dense and a strided array of rank 2 with equal contents, a hasher that sees write boundaries'
BREAKS='equal arrays hash differently'
