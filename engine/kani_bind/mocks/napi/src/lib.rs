//! The types of napi the Node binding uses. BigInt's accessors are those of napi 2.16, word for word.
use std::ops::{Deref, DerefMut};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Status {
    Ok,
    InvalidArg,
    GenericFailure,
}
#[derive(Debug)]
pub struct Error {
    pub status: Status,
    pub reason: String,
}
impl Error {
    pub fn new<R: ToString>(status: Status, reason: R) -> Self {
        Error { status, reason: reason.to_string() }
    }
    pub fn from_reason<T: Into<String>>(reason: T) -> Self {
        Error { status: Status::GenericFailure, reason: reason.into() }
    }
    pub fn from_status(status: Status) -> Self {
        Error { status, reason: String::new() }
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.reason)
    }
}
pub type Result<T, E = Error> = std::result::Result<T, E>;

#[derive(Debug, Clone)]
pub struct BigInt {
    pub sign_bit: bool,
    pub words: Vec<u64>,
}
impl BigInt {
    pub fn get_u64(&self) -> (bool, u64, bool) {
        (self.sign_bit, self.words[0], !self.sign_bit && self.words.len() == 1)
    }
    pub fn get_i64(&self) -> (i64, bool) {
        if self.sign_bit && self.words[0] == i64::MIN.unsigned_abs() {
            return (i64::MIN, self.words.len() == 1);
        }
        (
            self.words[0] as i64 * if self.sign_bit { -1 } else { 1 },
            self.words.len() == 1 && self.words[0] as i64 >= 0,
        )
    }
    pub fn get_i128(&self) -> (i128, bool) {
        let len = self.words.len();
        if len == 1 {
            (self.words[0] as i128 * if self.sign_bit { -1 } else { 1 }, true)
        } else {
            let val = self.words[0] as u128 + ((self.words[1] as u128) << 64);
            if self.sign_bit && val == i128::MIN.unsigned_abs() {
                return (i128::MIN, len > 2);
            }
            (val as i128 * if self.sign_bit { -1 } else { 1 }, len == 2 && self.words[1] as i64 >= 0)
        }
    }
    pub fn get_u128(&self) -> (bool, u128, bool) {
        let len = self.words.len();
        if len == 1 {
            (self.sign_bit, self.words[0] as u128, true)
        } else {
            let val = self.words[0] as u128 + ((self.words[1] as u128) << 64);
            (self.sign_bit, val, len == 2)
        }
    }
}

#[derive(Debug, Clone, Default)]
pub struct Uint8Array(Vec<u8>);
impl Uint8Array {
    pub fn new(v: Vec<u8>) -> Self {
        Uint8Array(v)
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.clone()
    }
}
impl<T: Into<Vec<u8>>> From<T> for Uint8Array {
    fn from(v: T) -> Self {
        Uint8Array(v.into())
    }
}
impl AsRef<[u8]> for Uint8Array {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl AsMut<[u8]> for Uint8Array {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl Deref for Uint8Array {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl DerefMut for Uint8Array {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
pub mod bindgen_prelude {
    pub use super::{BigInt, Error, Result, Status, Uint8Array};
}
