//! What all checks of the ring buffers share: statistics, record contents, opening.
use bd_buffer::buffer::{
  BlockWhenReservingIntoConcurrentRead,
  NonVolatileRingBuffer,
  OptionalStatGetter,
  PerRecordCrc32Check,
  RingBufferStats,
  StatsHelper,
};
use bd_buffer::{AbslCode, AllowOverwrite, Error};
use std::path::Path;
use std::sync::Arc;

pub fn stats() -> Arc<RingBufferStats> {
  StatsHelper::new(&bd_client_stats_store::Collector::default().scope("t")).stats
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Snap {
  pub written: u64,
  pub read: u64,
  pub overwritten: u64,
  pub refused: u64,
  pub corrupted: u64,
  pub b_written: u64,
  pub b_read: u64,
  pub t_written: u64,
  pub t_read: u64,
  pub b_overwritten: u64,
  pub b_refused: u64,
  pub loss: u64,
}

pub fn snap(s: &RingBufferStats) -> Snap {
  Snap {
    written: s.records_written.get_value(),
    read: s.records_read.get_value(),
    overwritten: s.records_overwritten.get_value(),
    refused: s.records_refused.get_value(),
    corrupted: s.records_corrupted.get_value(),
    b_written: s.bytes_written.get_value(),
    b_read: s.bytes_read.get_value(),
    t_written: s.total_bytes_written.get_value(),
    t_read: s.total_bytes_read.get_value(),
    b_overwritten: s.bytes_overwritten.get_value(),
    b_refused: s.bytes_refused.get_value(),
    loss: s.total_data_loss.get_value(),
  }
}

pub fn code<T>(r: &Result<T, Error>) -> &'static str {
  match r {
    Ok(_) => "ok",
    Err(Error::AbslStatus(c, _)) => match c {
      AbslCode::InvalidArgument => "InvalidArgument",
      AbslCode::FailedPrecondition => "FailedPrecondition",
      AbslCode::ResourceExhausted => "ResourceExhausted",
      AbslCode::Unavailable => "Unavailable",
      AbslCode::Aborted => "Aborted",
      AbslCode::DataLoss => "DataLoss",
      AbslCode::Unimplemented => "Unimplemented",
      _ => "other status",
    },
    Err(_) => "other error",
  }
}

/// The content of record `id`: no two records of a run have the same, from 4 bytes on.
pub fn content(id: u32, size: usize) -> Vec<u8> {
  let mut v: Vec<u8> = id.to_le_bytes().to_vec();
  let mut x = u64::from(id).wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
  while v.len() < size {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    v.push((x >> 32) as u8);
  }
  v.truncate(size);
  v
}

/// The record `data` is, if it is one that `content` makes.
pub fn identify(data: &[u8]) -> Option<u32> {
  if data.len() < 4 {
    return None;
  }
  let id = u32::from_le_bytes(data[.. 4].try_into().unwrap());
  (content(id, data.len()) == data).then_some(id)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Nv {
  pub size: u32,
  pub crc: bool,
  pub overwrite: bool,
  pub block_read: bool,
}

impl Nv {
  /// The bytes a record takes beside its data.
  pub fn extra(&self) -> u32 {
    if self.crc { 8 } else { 4 }
  }
  pub fn space(&self) -> u32 {
    self.size - 40
  }
  pub fn open(&self, path: &Path, stats: Arc<RingBufferStats>) -> Result<Arc<NonVolatileRingBuffer>, Error> {
    NonVolatileRingBuffer::new(
      "t".to_string(),
      path,
      self.size,
      if self.overwrite { AllowOverwrite::Yes } else { AllowOverwrite::Block },
      if self.block_read { BlockWhenReservingIntoConcurrentRead::Yes } else { BlockWhenReservingIntoConcurrentRead::No },
      if self.crc { PerRecordCrc32Check::Yes } else { PerRecordCrc32Check::No },
      stats,
    )
  }
}
