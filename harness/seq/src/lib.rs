pub mod bumpseq;
pub mod stackseq;
pub mod vals;
pub mod vdyn;
pub mod vecseq;

/// Does safe code get to move values of a (concrete) type out of a Pin? Autoref picks the better method.
pub struct Probe<T>(pub std::marker::PhantomData<T>);
pub trait NotUnpin { fn is_unpin(&self) -> bool { false } }
impl<T> NotUnpin for &Probe<T> {}
impl<T: Unpin> Probe<T> { pub fn is_unpin(&self) -> bool { true } }
