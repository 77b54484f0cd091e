#[derive(Debug)]
pub struct Error;
pub fn from_str<T: serde::Deserialize>(_: &str) -> Result<T, Error> {
    Ok(T::make())
}
