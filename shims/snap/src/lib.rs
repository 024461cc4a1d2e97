//! Stand-in for the raw format of the `snap` crate: the Snappy block format.
use std::fmt;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
  Header,
  Corrupt,
}

impl fmt::Display for Error {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    write!(f, "snappy: {self:?}")
  }
}

impl std::error::Error for Error {}

pub type Result<T> = std::result::Result<T, Error>;

pub mod raw {
  use super::{Error, Result};

  #[derive(Default)]
  pub struct Encoder;

  #[derive(Default)]
  pub struct Decoder;

  impl Encoder {
    #[must_use]
    pub fn new() -> Self {
      Self
    }

    /// Literals, and copies for runs of one byte.
    pub fn compress_vec(&mut self, input: &[u8]) -> Result<Vec<u8>> {
      let mut out = vec![];
      let mut n = input.len() as u64;
      while n >= 0x80 {
        out.push(n as u8 | 0x80);
        n >>= 7;
      }
      out.push(n as u8);
      let mut i = 0;
      let mut lit = 0;
      while i < input.len() {
        let mut run = 0;
        if i > 0 {
          while i + run < input.len() && run < 64 && input[i + run] == input[i - 1] {
            run += 1;
          }
        }
        if run >= 4 {
          literal(&mut out, &input[lit .. i]);
          out.push(((run as u8 - 1) << 2) | 2);
          out.extend_from_slice(&1u16.to_le_bytes());
          i += run;
          lit = i;
        } else {
          i += 1;
        }
      }
      literal(&mut out, &input[lit ..]);
      Ok(out)
    }
  }

  fn literal(out: &mut Vec<u8>, data: &[u8]) {
    for c in data.chunks(60) {
      out.push((c.len() as u8 - 1) << 2);
      out.extend_from_slice(c);
    }
  }

  impl Decoder {
    #[must_use]
    pub fn new() -> Self {
      Self
    }

    pub fn decompress_vec(&mut self, input: &[u8]) -> Result<Vec<u8>> {
      let mut at = 0;
      let mut want = 0u64;
      let mut shift = 0;
      loop {
        let b = *input.get(at).ok_or(Error::Header)?;
        at += 1;
        if shift > 28 {
          return Err(Error::Header);
        }
        want |= u64::from(b & 0x7f) << shift;
        shift += 7;
        if b & 0x80 == 0 {
          break;
        }
      }
      if want > u64::from(u32::MAX) {
        return Err(Error::Header);
      }
      let want = want as usize;
      let mut out: Vec<u8> = vec![];
      let take = |at: &mut usize, n: usize| -> Result<&[u8]> {
        let s = input.get(*at .. at.saturating_add(n)).ok_or(Error::Corrupt)?;
        *at += n;
        Ok(s)
      };
      while at < input.len() {
        let tag = input[at];
        at += 1;
        let (len, offset) = match tag & 3 {
          0 => {
            let mut len = usize::from(tag >> 2) + 1;
            if len > 60 {
              let extra = len - 60;
              let mut b = [0; 8];
              b[.. extra].copy_from_slice(take(&mut at, extra)?);
              len = usize::try_from(u64::from_le_bytes(b)).unwrap() + 1;
            }
            out.extend_from_slice(take(&mut at, len)?);
            if out.len() > want {
              return Err(Error::Corrupt);
            }
            continue;
          },
          1 => {
            let low = usize::from(take(&mut at, 1)?[0]);
            (usize::from(tag >> 2 & 7) + 4, usize::from(tag >> 5) << 8 | low)
          },
          2 => {
            let b = take(&mut at, 2)?;
            (usize::from(tag >> 2) + 1, usize::from(u16::from_le_bytes([b[0], b[1]])))
          },
          _ => {
            let b = take(&mut at, 4)?;
            (
              usize::from(tag >> 2) + 1,
              u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize,
            )
          },
        };
        if offset == 0 || offset > out.len() || out.len() + len > want {
          return Err(Error::Corrupt);
        }
        for _ in 0 .. len {
          out.push(out[out.len() - offset]);
        }
      }
      if out.len() == want {
        Ok(out)
      } else {
        Err(Error::Corrupt)
      }
    }
  }
}
