//! What the checks run of this crate's private items.
pub use crate::file_manager::{FileManager, FileSystem, PENDING_AGGREGATION_INDEX_FILE, STATS_DIRECTORY};
use crate::stats::Ticker;
use crate::{FlushHandles, Stats};
use bd_api::DataUpload;
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdown;
use bd_time::TimeProvider;
use std::sync::Arc;

struct Ticks(tokio::sync::mpsc::Receiver<()>);

#[async_trait::async_trait]
impl Ticker for Ticks {
  async fn tick(&mut self) {
    if self.0.recv().await.is_none() {
      std::future::pending::<()>().await;
    }
  }
}

/// The flusher on a given file system and clock, ticking when told.
pub fn flush_handles(
  stats: &Arc<Stats>,
  flush_ticks: tokio::sync::mpsc::Receiver<()>,
  upload_ticks: tokio::sync::mpsc::Receiver<()>,
  shutdown: ComponentShutdown,
  uploads: tokio::sync::mpsc::Sender<DataUpload>,
  fs: Box<dyn FileSystem>,
  time: Arc<dyn TimeProvider>,
  runtime: &ConfigLoader,
) -> anyhow::Result<FlushHandles> {
  stats.flush_handle_helper(
    Ticks(flush_ticks),
    Ticks(upload_ticks),
    shutdown,
    uploads,
    Arc::new(FileManager::new(fs, time, runtime)?),
  )
}
