//! stand-in for dyn-clone
pub trait DynClone { #[doc(hidden)] fn __clone_box(&self) -> *mut (); }
impl<T: Clone> DynClone for T { fn __clone_box(&self) -> *mut () { Box::into_raw(Box::new(self.clone())) as *mut () } }
pub fn clone_box<T: ?Sized + DynClone>(t: &T) -> Box<T> {
    let mut fat: *const T = t;
    unsafe {
        let data = &mut fat as *mut *const T as *mut *mut ();
        *data = <T as DynClone>::__clone_box(t);
        Box::from_raw(fat as *mut T)
    }
}
#[macro_export]
macro_rules! clone_trait_object {
    ($t:path) => { impl Clone for Box<dyn $t> { fn clone(&self) -> Self { $crate::clone_box(&**self) } } };
}
