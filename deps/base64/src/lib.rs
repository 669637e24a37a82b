//! Stand-in for base64 0.10 (standard alphabet, padded).
use std::{error, fmt};

const ALPHABET: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DecodeError {
    InvalidByte(usize, u8),
    InvalidLength,
    InvalidLastSymbol(usize, u8),
}

impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match *self {
            DecodeError::InvalidByte(i, b) => write!(f, "Invalid byte {}, offset {}.", b, i),
            DecodeError::InvalidLength => write!(f, "Encoded text cannot have a 6-bit remainder."),
            DecodeError::InvalidLastSymbol(i, b) => {
                write!(f, "Invalid last symbol {}, offset {}.", b, i)
            }
        }
    }
}
impl error::Error for DecodeError {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Config;
pub const STANDARD: Config = Config;

pub fn encode<T: ?Sized + AsRef<[u8]>>(input: &T) -> String {
    let mut out = String::new();
    for chunk in input.as_ref().chunks(3) {
        let b = [
            chunk[0],
            *chunk.get(1).unwrap_or(&0),
            *chunk.get(2).unwrap_or(&0),
        ];
        let n = (u32::from(b[0]) << 16) | (u32::from(b[1]) << 8) | u32::from(b[2]);
        for i in 0..4 {
            if i <= chunk.len() {
                out.push(ALPHABET[((n >> (18 - 6 * i)) & 63) as usize] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}

pub fn encode_config<T: ?Sized + AsRef<[u8]>>(input: &T, _: Config) -> String {
    encode(input)
}

pub fn decode_config<T: ?Sized + AsRef<[u8]>>(input: &T, _: Config) -> Result<Vec<u8>, DecodeError> {
    decode(input)
}

pub fn decode<T: ?Sized + AsRef<[u8]>>(input: &T) -> Result<Vec<u8>, DecodeError> {
    let bytes = input.as_ref();
    let mut out = vec![];
    let (mut acc, mut bits, mut pads, mut symbols) = (0u32, 0u32, 0usize, 0usize);
    for (i, &b) in bytes.iter().enumerate() {
        if b == b'=' {
            if symbols % 4 < 2 && pads == 0 || pads >= 2 {
                return Err(DecodeError::InvalidByte(i, b));
            }
            pads += 1;
            continue;
        }
        if pads > 0 {
            return Err(DecodeError::InvalidByte(i - 1, b'='));
        }
        let v = ALPHABET
            .iter()
            .position(|&c| c == b)
            .ok_or(DecodeError::InvalidByte(i, b))? as u32;
        symbols += 1;
        acc = (acc << 6) | v;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    if symbols % 4 == 1 {
        return Err(DecodeError::InvalidLength);
    }
    if acc != 0 {
        return Err(DecodeError::InvalidLastSymbol(bytes.len() - 1 - pads, bytes[bytes.len() - 1 - pads]));
    }
    Ok(out)
}
