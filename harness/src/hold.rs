//! Arrays with given shape and elements in every holder the library offers.
use mdarray::*;

/// strides of layout variant `w` (0 dense, 1 column-major, 2 reversed with gaps, 3 alternating with gaps) and the offset of the first element
pub fn strides(d: &[usize], w: usize) -> (Vec<isize>, usize) {
    let n = d.len();
    let grown = |i: usize| -> isize { d[i + 1..].iter().map(|x| *x as isize + 1).product() };
    let s: Vec<isize> = (0..n)
        .map(|i| match w {
            0 => d[i + 1..].iter().map(|x| *x as isize).product(),
            1 => d[..i].iter().map(|x| *x as isize).product(),
            2 => -grown(i),
            _ => {
                if i % 2 == 0 {
                    2 * grown(i)
                } else {
                    -2 * grown(i)
                }
            }
        })
        .collect();
    let f = if d.contains(&0) { 0 } else { (0..n).map(|i| (-(d[i] as isize - 1) * s[i]).max(0)).sum::<isize>() };
    (s, f as usize)
}

/// Storage of a strided array; cells that are not elements hold what `gap` gives.
pub struct Store<T> {
    pub d: Vec<usize>,
    pub s: Vec<isize>,
    pub f: usize,
    pub buf: Vec<T>,
}
const PAD: usize = 4;
impl<T: Clone> Store<T> {
    pub fn new(d: &[usize], c: &[T], w: usize, mut gap: impl FnMut(usize) -> T) -> Store<T> {
        let (s, f) = strides(d, w);
        let hi: isize = d.iter().zip(&s).map(|(&d, &s)| (d as isize - 1).max(0) * s.max(0)).sum();
        let n = f + hi as usize + 1 + 2 * PAD;
        let mut buf: Vec<T> = (0..n).map(&mut gap).collect();
        for (k, x) in c.iter().enumerate() {
            let ix = crate::ex::unlin(d, k);
            let off: isize = ix.iter().zip(&s).map(|(&i, &s)| i as isize * s).sum();
            buf[((PAD + f) as isize + off) as usize] = x.clone();
        }
        Store { d: d.to_vec(), s, f, buf }
    }
    pub fn ptr(&self) -> *const T {
        unsafe { self.buf.as_ptr().add(PAD + self.f) }
    }
    pub fn ptr_mut(&mut self) -> *mut T {
        unsafe { self.buf.as_mut_ptr().add(PAD + self.f) }
    }
    pub fn strided<S: Shape>(&self) -> View<'_, T, S, Strided> {
        unsafe { View::new_unchecked(self.ptr(), StridedMapping::new(S::from_dims(&self.d), &self.s)) }
    }
    pub fn strided_mut<S: Shape>(&mut self) -> ViewMut<'_, T, S, Strided> {
        let m = StridedMapping::new(S::from_dims(&self.d), &self.s);
        unsafe { ViewMut::new_unchecked(self.ptr_mut(), m) }
    }
    pub fn dense<S: Shape>(&self) -> View<'_, T, S, Dense> {
        unsafe { View::new_unchecked(self.ptr(), DenseMapping::new(S::from_dims(&self.d))) }
    }
    pub fn dense_mut<S: Shape>(&mut self) -> ViewMut<'_, T, S, Dense> {
        let m = DenseMapping::new(S::from_dims(&self.d));
        unsafe { ViewMut::new_unchecked(self.ptr_mut(), m) }
    }
}
pub fn tensor<T: Clone, S: Shape>(d: &[usize], c: &[T]) -> Tensor<T, S> {
    assert!(c.len() == d.iter().product::<usize>());
    let mut v = std::mem::ManuallyDrop::new(c.to_vec());
    unsafe { Tensor::from_raw_parts(v.as_mut_ptr(), DenseMapping::new(S::from_dims(d)), v.capacity()) }
}
