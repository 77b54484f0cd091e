//! The part of the jni crate's interface a binding of this shape uses, over a heap of Rust objects.
#![allow(static_mut_refs)]
pub mod sys {
    pub type jboolean = u8;
    pub type jbyte = i8;
    pub type jint = i32;
    pub type jsize = i32;
    pub type jlong = i64;
    pub const JNI_TRUE: jboolean = 1;
    pub const JNI_FALSE: jboolean = 0;
}
pub mod errors {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Error {
        NullPtr(&'static str),
        JavaException,
        WrongType,
    }
    pub type Result<T> = std::result::Result<T, Error>;
}
use errors::{Error, Result};
use sys::*;

/// an exception is pending; the class it was thrown with is IllegalArgumentException
pub static mut PENDING: bool = false;
pub static mut THROWN_ILLEGAL_ARGUMENT: bool = false;
pub fn pending() -> bool {
    unsafe { PENDING }
}

/// any Java object, flat and of fixed capacity to keep the model small
#[derive(Debug, Clone, Copy)]
pub struct Obj {
    pub kind: Kind,
    pub n: usize,
    pub bytes: [i8; CAP],
    pub longs: [i64; 4],
    pub items: [Ref; 4],
    pub class: Known,
}
pub const CAP: usize = 10;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Bytes,
    Longs,
    Array,
    Class,
    /// an instance made by a two-array constructor
    Pair,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Known {
    CellsAndProofs,
    ByteArray,
    IllegalArgument,
    Other,
}
fn known(s: &str) -> Known {
    // by length, which tells these apart (the real names are met when the binding runs in a JVM)
    match s.len() {
        36 => Known::CellsAndProofs,
        2 => Known::ByteArray,
        34 => Known::IllegalArgument,
        _ => Known::Other,
    }
}
/// objects live in a static table: the model checker propagates constants through it, and not through the heap
#[derive(Debug, Clone, Copy)]
pub struct Handle(u8);
pub type Ref = Option<Handle>;
const TABLE: usize = 24;
static mut OBJS: [Obj; TABLE] =
    [Obj { kind: Kind::Bytes, n: 0, bytes: [0; CAP], longs: [0; 4], items: [None; 4], class: Known::Other }; TABLE];
static mut USED: usize = 0;
impl Handle {
    pub fn get(self) -> &'static Obj {
        unsafe { &*std::ptr::addr_of!(OBJS[self.0 as usize]) }
    }
    fn get_mut(self) -> &'static mut Obj {
        unsafe { &mut *std::ptr::addr_of_mut!(OBJS[self.0 as usize]) }
    }
}
pub fn new(kind: Kind, n: usize) -> Obj {
    assert!(n <= CAP, "beyond the model");
    Obj { kind, n, bytes: [0; CAP], longs: [0; 4], items: [None; 4], class: Known::Other }
}
impl Obj {
    pub fn share(self) -> Ref {
        unsafe {
            let i = USED;
            assert!(i < TABLE, "beyond the model");
            USED = i + 1;
            OBJS[i] = self;
            Some(Handle(i as u8))
        }
    }
}

pub mod objects {
    use super::*;
    use std::marker::PhantomData;
    use std::ops::Deref;
    #[repr(transparent)]
    #[derive(Debug, Default)]
    pub struct JObject<'local>(pub Ref, PhantomData<&'local ()>);
    impl<'local> JObject<'local> {
        pub fn null() -> JObject<'static> {
            JObject(None, PhantomData)
        }
        pub fn of(r: Ref) -> Self {
            JObject(r, PhantomData)
        }
        pub fn is_null(&self) -> bool {
            self.0.is_none()
        }
    }
    impl<'l> AsRef<JObject<'l>> for JObject<'l> {
        fn as_ref(&self) -> &JObject<'l> {
            self
        }
    }
    macro_rules! kinds {
        ($($n:ident)*) => {$(
            #[repr(transparent)]
            #[derive(Debug, Default)]
            pub struct $n<'local>(JObject<'local>);
            impl<'local> $n<'local> {
                pub fn of(r: Ref) -> Self {
                    $n(JObject::of(r))
                }
            }
            impl<'l> Deref for $n<'l> {
                type Target = JObject<'l>;
                fn deref(&self) -> &JObject<'l> {
                    &self.0
                }
            }
            impl<'l> AsRef<JObject<'l>> for $n<'l> {
                fn as_ref(&self) -> &JObject<'l> {
                    &self.0
                }
            }
            impl<'l> AsRef<$n<'l>> for $n<'l> {
                fn as_ref(&self) -> &$n<'l> {
                    self
                }
            }
            impl<'l> From<JObject<'l>> for $n<'l> {
                fn from(o: JObject<'l>) -> Self {
                    $n(o)
                }
            }
            impl<'l> From<$n<'l>> for JObject<'l> {
                fn from(o: $n<'l>) -> Self {
                    o.0
                }
            }
        )*};
    }
    kinds!(JClass JByteArray JLongArray JObjectArray JThrowable JString);
    pub trait AsJArrayRaw {
        fn array(&self) -> Ref;
    }
    macro_rules! arrays {
        ($($n:ident)*) => {$(impl AsJArrayRaw for $n<'_> { fn array(&self) -> Ref { self.0.0 } })*};
    }
    arrays!(JByteArray JLongArray JObjectArray);
    #[derive(Debug, Clone, Copy)]
    pub enum JValue<'obj> {
        Object(&'obj JObject<'obj>),
        Long(i64),
        Int(i32),
        Bool(u8),
        Void,
    }
    /// a class, or the name of one
    pub trait ClassDesc {
        fn class(&self) -> super::Known;
    }
    impl ClassDesc for JClass<'_> {
        fn class(&self) -> super::Known {
            match self.0 .0 {
                Some(o) if o.get().kind == Kind::Class => o.get().class,
                _ => Known::Other,
            }
        }
    }
    impl ClassDesc for &JClass<'_> {
        fn class(&self) -> super::Known {
            (*self).class()
        }
    }
    impl ClassDesc for &str {
        fn class(&self) -> super::Known {
            known(self)
        }
    }
}
use objects::*;

pub struct JNIEnv<'local>(std::marker::PhantomData<&'local ()>);
impl<'local> JNIEnv<'local> {
    pub fn mock() -> Self {
        JNIEnv(std::marker::PhantomData)
    }
    fn object(o: Ref, kind: Kind) -> Result<Handle> {
        match o {
            None => Err(Error::NullPtr("object")),
            Some(b) if b.get().kind == kind => Ok(b),
            Some(_) => Err(Error::WrongType),
        }
    }
    fn exception<T>() -> Result<T> {
        unsafe { PENDING = true };
        Err(Error::JavaException)
    }
    fn inside(o: &Obj, start: jsize, n: usize) -> bool {
        start >= 0 && start as usize + n <= o.n
    }
    pub fn convert_byte_array<'o>(&self, a: impl AsRef<JByteArray<'o>>) -> Result<Vec<u8>> {
        let b = Self::object(a.as_ref().0, Kind::Bytes)?.get();
        let mut v = Vec::with_capacity(CAP);
        for i in 0..CAP {
            if i < b.n {
                v.push(b.bytes[i] as u8);
            }
        }
        Ok(v)
    }
    pub fn byte_array_from_slice(&self, b: &[u8]) -> Result<JByteArray<'local>> {
        let mut o = new(Kind::Bytes, b.len());
        for i in 0..CAP {
            if i < b.len() {
                o.bytes[i] = b[i] as i8;
            }
        }
        Ok(JByteArray::of(o.share()))
    }
    pub fn new_byte_array(&self, n: jsize) -> Result<JByteArray<'local>> {
        Ok(JByteArray::of(new(Kind::Bytes, n as usize).share()))
    }
    pub fn set_byte_array_region<'o>(&self, a: impl AsRef<JByteArray<'o>>, start: jsize, buf: &[jbyte]) -> Result<()> {
        let o = Self::object(a.as_ref().0, Kind::Bytes)?.get_mut();
        if !Self::inside(o, start, buf.len()) {
            return Self::exception();
        }
        for i in 0..buf.len() {
            o.bytes[start as usize + i] = buf[i];
        }
        Ok(())
    }
    pub fn get_array_length(&self, a: &impl AsJArrayRaw) -> Result<jsize> {
        match a.array() {
            None => Err(Error::NullPtr("array")),
            Some(o) => Ok(o.get().n as jsize),
        }
    }
    pub fn get_byte_array_region<'o>(&self, a: impl AsRef<JByteArray<'o>>, start: jsize, buf: &mut [jbyte]) -> Result<()> {
        let o = Self::object(a.as_ref().0, Kind::Bytes)?.get();
        if !Self::inside(o, start, buf.len()) {
            return Self::exception();
        }
        for i in 0..buf.len() {
            buf[i] = o.bytes[start as usize + i];
        }
        Ok(())
    }
    pub fn get_long_array_region<'o>(&self, a: impl AsRef<JLongArray<'o>>, start: jsize, buf: &mut [jlong]) -> Result<()> {
        let o = Self::object(a.as_ref().0, Kind::Longs)?.get();
        if !Self::inside(o, start, buf.len()) {
            return Self::exception();
        }
        for i in 0..buf.len() {
            buf[i] = o.longs[start as usize + i];
        }
        Ok(())
    }
    pub fn get_object_array_element<'o>(&mut self, a: impl AsRef<JObjectArray<'o>>, i: jsize) -> Result<JObject<'local>> {
        let o = Self::object(a.as_ref().0, Kind::Array)?.get();
        if !Self::inside(o, i, 1) {
            return Self::exception();
        }
        Ok(JObject::of(o.items[i as usize]))
    }
    pub fn set_object_array_element<'o, 'v>(&self, a: impl AsRef<JObjectArray<'o>>, i: jsize, v: impl AsRef<JObject<'v>>) -> Result<()> {
        let o = Self::object(a.as_ref().0, Kind::Array)?.get_mut();
        if !Self::inside(o, i, 1) {
            return Self::exception();
        }
        o.items[i as usize] = v.as_ref().0;
        Ok(())
    }
    pub fn find_class(&mut self, name: impl AsRef<str>) -> Result<JClass<'local>> {
        let k = known(name.as_ref());
        if k == Known::Other {
            return Self::exception();
        }
        let mut o = new(Kind::Class, 0);
        o.class = k;
        Ok(JClass::of(o.share()))
    }
    pub fn new_object_array<'v>(&mut self, n: jsize, class: impl ClassDesc, init: impl AsRef<JObject<'v>>) -> Result<JObjectArray<'local>> {
        if class.class() != Known::ByteArray {
            return Self::exception();
        }
        let mut o = new(Kind::Array, n as usize);
        o.items = [init.as_ref().0; 4];
        Ok(JObjectArray::of(o.share()))
    }
    pub fn new_object(&mut self, class: impl ClassDesc, sig: impl AsRef<str>, args: &[JValue]) -> Result<JObject<'local>> {
        if class.class() != Known::CellsAndProofs || sig.as_ref().len() != 9 || args.len() != 2 {
            return Self::exception();
        }
        let (JValue::Object(a), JValue::Object(b)) = (args[0], args[1]) else { return Self::exception() };
        let mut o = new(Kind::Pair, 2);
        o.class = Known::CellsAndProofs;
        o.items[0] = a.0;
        o.items[1] = b.0;
        Ok(JObject::of(o.share()))
    }
    pub fn throw_new(&mut self, class: impl ClassDesc, msg: impl AsRef<str>) -> Result<()> {
        let _ = msg;
        if pending() {
            return Err(Error::JavaException);
        }
        unsafe {
            PENDING = true;
            THROWN_ILLEGAL_ARGUMENT = class.class() == Known::IllegalArgument;
        }
        Ok(())
    }
    pub fn exception_check(&self) -> Result<bool> {
        Ok(pending())
    }
    pub fn delete_local_ref<'o>(&self, o: impl Into<JObject<'o>>) -> Result<()> {
        let _ = o.into();
        Ok(())
    }
}
