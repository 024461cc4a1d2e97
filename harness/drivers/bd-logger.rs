//! What the checks run of this crate's private items.

pub mod meta {
  use crate::metadata::MetadataCollector;
  use crate::{AnnotatedLogFields, LogField, LogMetadata, LogType, MetadataProvider};
  use std::sync::Arc;

  pub struct Collector(MetadataCollector);
  impl Collector {
    pub fn new(p: Arc<dyn MetadataProvider + Send + Sync>) -> Self {
      Self(MetadataCollector::new(p))
    }
    pub fn collect(
      &self,
      fields: AnnotatedLogFields,
      matching: AnnotatedLogFields,
      t: LogType,
    ) -> anyhow::Result<LogMetadata> {
      self.0.normalized_metadata_with_extra_fields(fields, matching, t)
    }
    pub fn add(&mut self, f: LogField) -> anyhow::Result<()> {
      self.0.add_field(f)
    }
    pub fn remove(&mut self, k: &str) {
      self.0.remove_field(k);
    }
  }
}

pub mod version {
  use crate::app_version::{AppVersion, Repository};
  use crate::AppVersionExtra;
  use std::sync::Arc;

  pub struct Repo(Repository);
  impl Repo {
    pub fn new(s: Arc<bd_key_value::Store>) -> Self {
      Self(Repository::new(s))
    }
    pub fn has_changed(&self, v: &str, e: AppVersionExtra) -> bool {
      self.0.has_changed(&AppVersion { app_version: v.to_string(), app_version_extra: e })
    }
    pub fn set(&self, v: &str, e: AppVersionExtra) -> Option<(String, AppVersionExtra)> {
      self
        .0
        .set(&AppVersion { app_version: v.to_string(), app_version_extra: e })
        .map(|p| (p.app_version, p.app_version_extra))
    }
  }
}

pub mod queue {
  pub use crate::async_log_buffer::{AsyncLogBufferMessage, LogLine};
  pub use crate::memory_bound::{channel, MemorySized, Receiver, Sender, TrySendError};
  pub use crate::pre_config_buffer::{Error as HoldError, PreConfigBuffer};
}

pub mod upload {
  pub use crate::service::{new, Upload, UploadRequest, UploadResult};

  pub fn request(logs: bd_api::upload::LogBatch) -> UploadRequest {
    UploadRequest::new(logs)
  }
}

pub mod consumer {
  use crate::consumer::BufferUploadManager;
  use bd_api::{DataUpload, TriggerUpload};
  use bd_buffer::BufferEventWithResponse;
  use bd_client_stats_store::Scope;
  use bd_runtime::runtime::ConfigLoader;
  use bd_shutdown::ComponentShutdown;
  use std::sync::Arc;
  use tokio::sync::mpsc::{Receiver, Sender};

  pub async fn run(
    data: Sender<DataUpload>,
    runtime: &Arc<ConfigLoader>,
    shutdown: ComponentShutdown,
    events: Receiver<BufferEventWithResponse>,
    triggers: Receiver<TriggerUpload>,
    scope: &Scope,
    logging: Arc<dyn bd_internal_logging::Logger>,
  ) -> anyhow::Result<()> {
    BufferUploadManager::new(data, runtime, shutdown, events, triggers, scope, logging)?.run().await
  }
}

pub mod pipeline {
  use crate::async_log_buffer::AsyncLogBuffer;
  use crate::client_config::{Config, LoggerUpdate};
  use crate::log_replay::LoggerReplay;
  use crate::logging_state::UninitializedLoggingContext;
  use crate::{Logger, MetadataProvider};
  use bd_api::api::SimpleNetworkQualityProvider;
  use bd_api::{ConfigurationUpdate, DataUpload, TriggerUpload};
  use bd_buffer::{BufferEventWithResponse, BuffersWithAck, Manager};
  use bd_client_stats::{DynamicStats, FlushTrigger};
  use bd_client_stats_store::Scope;
  use bd_key_value::Store;
  use bd_runtime::runtime::ConfigLoader;
  use bd_shutdown::ComponentShutdownTriggerHandle;
  use std::future::Future;
  use std::path::Path;
  use std::pin::Pin;
  use std::sync::Arc;
  use tokio::sync::mpsc::{channel, Receiver};

  /// The logger and its pipeline, with the ends of all channels that lead out of it.
  pub struct Parts {
    pub logger: Logger,
    pub config: Box<dyn ConfigurationUpdate>,
    pub manager: Arc<Manager>,
    pub events: Receiver<BufferEventWithResponse>,
    pub flushes: Receiver<BuffersWithAck>,
    pub triggers: Receiver<TriggerUpload>,
    pub uploads: Receiver<DataUpload>,
    pub stats: Receiver<Option<bd_completion::Sender<()>>>,
    pub run: Pin<Box<dyn Future<Output = ()>>>,
  }

  pub fn build(
    dir: &Path,
    loader: &Arc<ConfigLoader>,
    scope: &Scope,
    limits: (usize, usize),
    session: Arc<bd_session::Strategy>,
    provider: Arc<dyn MetadataProvider + Send + Sync>,
    store: Arc<Store>,
    targets: (
      Box<dyn bd_resource_utilization::Target + Send + Sync>,
      Box<dyn bd_session_replay::Target + Send + Sync>,
      Box<dyn bd_events::ListenerTarget + Send + Sync>,
    ),
    shutdown: ComponentShutdownTriggerHandle,
  ) -> anyhow::Result<Parts> {
    let (trigger_tx, triggers) = channel(1);
    let (flush_tx, flushes) = channel(1);
    let (config_tx, config_rx) = channel(1);
    let (upload_tx, uploads) = channel(1);
    let (stats_tx, stats) = FlushTrigger::new();
    let (buffer, tx) = AsyncLogBuffer::<LoggerReplay>::new(
      UninitializedLoggingContext::new(
        dir,
        loader,
        scope.clone(),
        Arc::new(DynamicStats::new(scope, loader)),
        trigger_tx,
        upload_tx,
        flush_tx,
        Some(stats_tx),
        limits.0,
        limits.1,
      ),
      LoggerReplay {},
      session.clone(),
      provider,
      targets.0,
      targets.1,
      targets.2,
      config_rx,
      shutdown,
      loader,
      Arc::new(SimpleNetworkQualityProvider::default()),
    );
    let device = Arc::new(bd_device::Device::new(store.clone()));
    let logger = Logger::new(None, loader.clone(), scope.clone(), tx, session, device, "1.0", store);
    let (manager, events) = Manager::new(Logger::initialize_buffer_directory(dir)?, scope, loader);
    let config = Config::new(dir, LoggerUpdate::new(manager.clone(), config_tx, loader, scope), scope)?;
    let run = Box::pin(async move {
      buffer.run().await;
    });
    Ok(Parts { logger, config: Box::new(config), manager, events, flushes, triggers, uploads, stats, run })
  }
}

pub mod intercept {
  pub use crate::internal_report::Reporter;
  pub use crate::network::NetworkQualityInterceptor;
  use bd_log_primitives::LogInterceptor;
  use bd_network_quality::NetworkQualityProvider;
  use std::sync::{Arc, Mutex};
  use std::time::{Duration, Instant};

  #[derive(Clone)]
  pub struct Clock(Arc<Mutex<Instant>>);
  impl Default for Clock {
    fn default() -> Self {
      Self(Arc::new(Mutex::new(Instant::now())))
    }
  }
  impl Clock {
    pub fn advance(&self, by: Duration) {
      *self.0.lock().unwrap() += by;
    }
  }
  impl crate::network::TimeProvider for Clock {
    fn now(&self) -> Instant {
      *self.0.lock().unwrap()
    }
  }

  pub fn traffic(clock: &Clock, quality: Arc<dyn NetworkQualityProvider>) -> Arc<dyn LogInterceptor> {
    Arc::new(crate::network::HTTPTrafficDataUsageTracker::new(Arc::new(clock.clone()), quality))
  }
}
