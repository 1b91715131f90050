//! Stand-in for dtoa used in the solver builds: instead of decimal digits it writes an opaque
//! token (the byte 2, then the number's 4 bytes, little-endian), so that a harness can read the
//! number back symbolically. Where dtoa would write an exponent, "inf" or "NaN", it writes something that is not a PDF number. The digits themselves are outside.
use std::io;

pub trait Floating {
    fn token(self) -> [u8; 4];
}
impl Floating for f32 {
    fn token(self) -> [u8; 4] {
        unsafe { std::mem::transmute(self) }
    }
}
impl Floating for f64 {
    fn token(self) -> [u8; 4] {
        (self as f32).token()
    }
}
pub fn write<W: io::Write, V: Floating>(mut wr: W, value: V) -> io::Result<usize> {
    let t = value.token();
    // dtoa uses an exponent from here on, or writes "inf" or "NaN".
    let x: f32 = unsafe { std::mem::transmute(t) };
    let m = x.abs();
    if !((m < 1e21) & ((m >= 1e-6) | (m == 0.))) {
        wr.write_all(b"1e")?;
        return Ok(2)
    }
    wr.write_all(&[2])?;
    wr.write_all(&t)?;
    Ok(5)
}
