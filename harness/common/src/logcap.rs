//! A `log` logger that keeps what the code under test logged.

use std::sync::Mutex;

pub struct Line {
  pub level: log::Level,
  pub target: String,
  pub text: String,
}

struct Cap;
static LINES: Mutex<Vec<Line>> = Mutex::new(Vec::new());

impl log::Log for Cap {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool {
    true
  }
  fn log(&self, r: &log::Record<'_>) {
    let text = format!("{}", r.args());
    let mut l = LINES.lock().unwrap_or_else(|e| e.into_inner());
    if l.len() < 1_000_000 {
      l.push(Line { level: r.level(), target: r.target().to_string(), text });
    }
  }
  fn flush(&self) {}
}

pub fn install(level: log::LevelFilter) {
  static C: Cap = Cap;
  let _ = log::set_logger(&C);
  log::set_max_level(level);
}

pub fn drain() -> Vec<Line> {
  std::mem::take(&mut *LINES.lock().unwrap_or_else(|e| e.into_inner()))
}
