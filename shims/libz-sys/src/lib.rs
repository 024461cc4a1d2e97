//! Declarations of the system's zlib, for flate2's `zlib` backend (the one the repository selects).
#![allow(non_camel_case_types, non_snake_case, non_upper_case_globals)]
use std::os::raw::{c_char, c_int, c_uchar, c_uint, c_ulong, c_void};

pub type alloc_func = extern "C" fn(*mut c_void, uInt, uInt) -> *mut c_void;
pub type free_func = extern "C" fn(*mut c_void, *mut c_void);
pub type Bytef = u8;
pub type uInt = c_uint;
pub type uLong = c_ulong;
pub enum internal_state {}

#[repr(C)]
#[derive(Copy, Clone)]
pub struct z_stream {
  pub next_in: *mut Bytef,
  pub avail_in: uInt,
  pub total_in: uLong,
  pub next_out: *mut Bytef,
  pub avail_out: uInt,
  pub total_out: uLong,
  pub msg: *mut c_char,
  pub state: *mut internal_state,
  pub zalloc: alloc_func,
  pub zfree: free_func,
  pub opaque: *mut c_void,
  pub data_type: c_int,
  pub adler: uLong,
  pub reserved: uLong,
}
pub type z_streamp = *mut z_stream;

extern "C" {
  pub fn deflate(strm: z_streamp, flush: c_int) -> c_int;
  pub fn deflateEnd(strm: z_streamp) -> c_int;
  pub fn deflateReset(strm: z_streamp) -> c_int;
  pub fn deflateParams(strm: z_streamp, level: c_int, strategy: c_int) -> c_int;
  pub fn deflateSetDictionary(strm: z_streamp, d: *const c_uchar, len: uInt) -> c_int;
  pub fn deflateInit2_(
    strm: z_streamp,
    level: c_int,
    method: c_int,
    windowBits: c_int,
    memLevel: c_int,
    strategy: c_int,
    version: *const c_char,
    stream_size: c_int,
  ) -> c_int;
  pub fn inflate(strm: z_streamp, flush: c_int) -> c_int;
  pub fn inflateEnd(strm: z_streamp) -> c_int;
  pub fn inflateReset(strm: z_streamp) -> c_int;
  pub fn inflateReset2(strm: z_streamp, windowBits: c_int) -> c_int;
  pub fn inflateSetDictionary(strm: z_streamp, d: *const c_uchar, len: uInt) -> c_int;
  pub fn inflateInit2_(
    strm: z_streamp,
    windowBits: c_int,
    version: *const c_char,
    stream_size: c_int,
  ) -> c_int;
}

pub const Z_NO_FLUSH: c_int = 0;
pub const Z_PARTIAL_FLUSH: c_int = 1;
pub const Z_SYNC_FLUSH: c_int = 2;
pub const Z_FULL_FLUSH: c_int = 3;
pub const Z_FINISH: c_int = 4;
pub const Z_BLOCK: c_int = 5;
pub const Z_OK: c_int = 0;
pub const Z_STREAM_END: c_int = 1;
pub const Z_NEED_DICT: c_int = 2;
pub const Z_STREAM_ERROR: c_int = -2;
pub const Z_DATA_ERROR: c_int = -3;
pub const Z_MEM_ERROR: c_int = -4;
pub const Z_BUF_ERROR: c_int = -5;
pub const Z_DEFAULT_STRATEGY: c_int = 0;
pub const Z_DEFLATED: c_int = 8;
