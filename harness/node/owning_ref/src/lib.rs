//! A stand-in for owning_ref 0.4: a handle that keeps what it refers to.
use std::ops::{Deref, DerefMut};

pub struct OwningHandle<O: Deref, H: Deref> {
    // dropped in this order
    handle: H,
    owner: O,
}
impl<O: Deref, H: Deref> OwningHandle<O, H> {
    pub fn new_with_fn<F: FnOnce(*const O::Target) -> H>(owner: O, f: F) -> Self {
        let handle = f(&*owner as *const O::Target);
        OwningHandle { handle, owner }
    }
    pub fn try_new<F: FnOnce(*const O::Target) -> Result<H, E>, E>(owner: O, f: F) -> Result<Self, E> {
        let handle = f(&*owner as *const O::Target)?;
        Ok(OwningHandle { handle, owner })
    }
    pub fn as_owner(&self) -> &O {
        &self.owner
    }
    pub fn into_owner(self) -> O {
        self.owner
    }
}
impl<O: Deref, H: Deref> Deref for OwningHandle<O, H> {
    type Target = H::Target;
    fn deref(&self) -> &H::Target {
        self.handle.deref()
    }
}
impl<O: Deref, H: DerefMut> DerefMut for OwningHandle<O, H> {
    fn deref_mut(&mut self) -> &mut H::Target {
        self.handle.deref_mut()
    }
}
