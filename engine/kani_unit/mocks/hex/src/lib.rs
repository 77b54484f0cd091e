#[derive(Debug)]
pub struct FromHexError;
fn nib(c: u8) -> Result<u8, FromHexError> {
    match c {
        b'0'..=b'9' => Ok(c - b'0'),
        b'a'..=b'f' => Ok(c - b'a' + 10),
        b'A'..=b'F' => Ok(c - b'A' + 10),
        _ => Err(FromHexError),
    }
}
pub fn decode(s: impl AsRef<[u8]>) -> Result<Vec<u8>, FromHexError> {
    let s = s.as_ref();
    if s.len() % 2 != 0 {
        return Err(FromHexError);
    }
    s.chunks(2).map(|c| Ok(nib(c[0])? << 4 | nib(c[1])?)).collect()
}
