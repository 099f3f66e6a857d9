//! Locks for a single-threaded program.
pub use ::std::sync::*;
use ::std::cell::UnsafeCell;
use ::std::ops::{Deref, DerefMut};

pub struct RwLock<T> {
    v: UnsafeCell<T>,
}
unsafe impl<T> Sync for RwLock<T> {}
unsafe impl<T> Send for RwLock<T> {}
pub struct Guard<'a, T> {
    v: &'a UnsafeCell<T>,
}
impl<'a, T> Deref for Guard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.v.get() }
    }
}
impl<'a, T> DerefMut for Guard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.v.get() }
    }
}
pub type RwLockReadGuard<'a, T> = Guard<'a, T>;
pub type RwLockWriteGuard<'a, T> = Guard<'a, T>;
pub type MutexGuard<'a, T> = Guard<'a, T>;
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        Self { v: UnsafeCell::new(v) }
    }
    pub fn read(&self) -> LockResult<Guard<'_, T>> {
        Ok(Guard { v: &self.v })
    }
    pub fn write(&self) -> LockResult<Guard<'_, T>> {
        Ok(Guard { v: &self.v })
    }
}
pub struct Mutex<T> {
    v: UnsafeCell<T>,
}
unsafe impl<T> Sync for Mutex<T> {}
unsafe impl<T> Send for Mutex<T> {}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Self { v: UnsafeCell::new(v) }
    }
    pub fn lock(&self) -> LockResult<Guard<'_, T>> {
        Ok(Guard { v: &self.v })
    }
}
pub struct OnceLock<T> {
    v: UnsafeCell<Option<T>>,
}
unsafe impl<T> Sync for OnceLock<T> {}
unsafe impl<T> Send for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        Self { v: UnsafeCell::new(None) }
    }
    pub fn get(&self) -> Option<&T> {
        unsafe { (*self.v.get()).as_ref() }
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        if self.get().is_some() {
            Err(v)
        } else {
            unsafe { *self.v.get() = Some(v) };
            Ok(())
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if self.get().is_none() {
            unsafe { *self.v.get() = Some(f()) };
        }
        self.get().unwrap()
    }
}
