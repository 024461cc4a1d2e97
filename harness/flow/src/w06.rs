//! The engine next to the model over several processes: it goes on from what it saved, whenever it ends.
use crate::w05::{a_log, configs, reconfigure, rt, World, STATE};
use crate::wf::{self, Pool, Snap};
use fault::Plan;
use std::path::PathBuf;
use std::time::{Duration, SystemTime};
use vh::{Check, Rng};

struct Saves<'a> {
  c: &'a Check,
  w: World<'a>,
  file: PathBuf,
  save_ms: u64,
  poll_ms: u64,
  /// The last time it was written for sure; none if that is not known.
  last: Option<Option<tokio::time::Instant>>,
  /// Something happened since it was written.
  touched: bool,
}

impl Saves<'_> {
  fn age(&self) {
    if let Ok(f) = std::fs::File::options().append(true).open(&self.file) {
      f.set_modified(SystemTime::UNIX_EPOCH).unwrap();
    }
  }

  fn written(&self) -> bool {
    std::fs::metadata(&self.file).is_ok_and(|m| m.modified().unwrap() != SystemTime::UNIX_EPOCH)
  }

  fn snaps(&self) -> Vec<Option<Snap>> {
    let mut v = vec![];
    for m in &self.w.live {
      let s = Some(m.snap());
      if !v.contains(&s) {
        v.push(s);
      }
    }
    v
  }

  /// Now the disk has what there is.
  fn wrote(&mut self) {
    self.w.disk = self.snaps();
    self.w.say(format!("written: {:?}", self.w.disk));
    self.w.versions = self.w.config.iter().map(|w| (w.id.clone(), w.clone())).collect();
    for m in &mut self.w.live {
      m.dirty = false;
    }
    self.last = Some(Some(tokio::time::Instant::now()));
    self.touched = false;
    self.c.count("states written");
    self.c.add("states written with workflows under way", u64::from(self.w.disk.iter().flatten().any(|s| !s.runs.is_empty())));
    self.c.add("states written with actions under way", u64::from(self.w.disk.iter().flatten().any(|s| !s.pending.is_empty() || !s.streams.is_empty())));
  }

  fn dirty(&self) -> bool {
    self.w.live.iter().all(|m| m.dirty)
  }

  fn early(&self, now: tokio::time::Instant) -> Option<bool> {
    self.last.map(|l| l.is_some_and(|l| now.duration_since(l) < Duration::from_millis(self.save_ms)))
  }

  async fn save(&mut self, force: bool) {
    self.w.say(format!("save, force {force}"));
    self.age();
    let early = if force { Some(false) } else { self.early(tokio::time::Instant::now()) };
    let dirty = self.dirty();
    self.w.save(force).await;
    let written = self.written();
    if written && !self.touched {
      return self.w.bad("needless save", "saves although nothing happened since");
    }
    if written && early == Some(true) {
      return self.w.bad("early save", &format!("saves less than {} ms after it last did", self.save_ms));
    }
    if !written && dirty && early == Some(false) {
      return self.w.bad("missing save", "does not save what changed");
    }
    if written {
      self.wrote();
    }
  }

  /// Time goes by while it runs.
  async fn wait(&mut self, r: &mut Rng) {
    let ms = *r.pick(&[0, 1, self.save_ms / 2, self.save_ms, self.save_ms + 1, self.poll_ms + 1]);
    if r.bool() {
      self.w.say(format!("{ms} ms pass"));
      tokio::time::sleep(Duration::from_millis(ms)).await;
      return;
    }
    self.age();
    let at = tokio::time::Instant::now() + Duration::from_millis(self.poll_ms);
    let early = self.early(at);
    self.w.run(Duration::from_millis(ms)).await;
    self.touched = true;
    if self.w.lost {
      return;
    }
    let written = self.written();
    if written && (ms < self.poll_ms || self.early(tokio::time::Instant::now()) == Some(true)) {
      return self.w.bad("early save", "saves before its time");
    }
    if !written && ms > self.poll_ms && early == Some(false) && self.dirty() {
      return self.w.bad("missing save", "does not save from time to time what changed");
    }
    if written {
      self.wrote();
      self.last = None;
      self.c.count("states written from time to time");
    }
  }

  /// Something happens to the disk, or to the process, as it saves.
  async fn mishap(&mut self, r: &mut Rng) -> bool {
    let n = r.below(4);
    let plan = match r.below(5) {
      0 => Plan::Before(n),
      1 => Plan::After(n),
      2 => Plan::Torn(n),
      3 => Plan::Fail(n, n + 1),
      _ => Plan::Fail(n, 100),
    };
    self.w.say(format!("save with {plan:?}"));
    let old = self.w.disk.clone();
    self.age();
    fault::arm(self.w.dir.as_path(), plan, *r.pick(&[libc::EIO, libc::ENOSPC]));
    self.w.save(true).await;
    let did = fault::disarm();
    if did.ops == 0 {
      // It had nothing to save.
      if self.dirty() {
        self.w.bad("missing save", "does not save what changed");
      }
      return false;
    }
    let mut new = self.snaps();
    if did.hits == 0 && !did.dead {
      self.wrote();
      return false;
    }
    self.c.count(if did.dead { "ended while it saved" } else { "failed saves" });
    new.push(None);
    // Definitions differ between what was and what is.
    for o in old {
      if !new.contains(&o) {
        new.push(o);
      }
    }
    self.w.disk = new;
    let config = self.w.config.clone();
    self.w.versions.retain(|id, v| config.iter().any(|w| w.id == *id && w == v));
    for m in &mut self.w.live {
      m.dirty = false;
    }
    self.last = None;
    self.touched = true;
    did.dead
  }

  async fn start(&mut self, r: &mut Rng, pool: &Pool) {
    for _ in 0 .. [0, 0, 0, 1, 2][r.idx(5)] {
      reconfigure(r, &mut self.w, pool);
    }
    let limit = if r.chance(1, 6) { r.below(8) as u32 } else { 200 };
    self.save_ms = *r.pick(&[0, 50, 1000]);
    // Never due at the very end of a wait.
    self.poll_ms = *r.pick(&[130, 2100]);
    let before = self.w.disk.clone();
    let unreadable = r.chance(1, 20);
    if unreadable {
      fault::arm(self.w.dir.as_path(), Plan::Unreadable(0, 100), libc::EIO);
      self.w.disk.push(None);
    }
    self.w.start(limit, self.save_ms as u32, self.poll_ms as u32).await;
    if unreadable {
      fault::disarm();
    }
    self.w.disk = before;
    if !self.file.exists() {
      self.w.disk = vec![None];
    }
    self.last = Some(None);
    // There may be something to tidy up.
    self.touched = true;
    self.c.count("starts");
    self.c.add("starts with workflows under way", u64::from(self.w.live.iter().all(|m| m.busy())));
  }

  /// Whatever may be in the file.
  async fn spoil(&mut self, r: &mut Rng) {
    let Ok(mut b) = std::fs::read(&self.file) else { return };
    let how = r.below(4);
    match how {
      0 => {
        let n = r.idx(b.len() + 1).min(b.len().saturating_sub(1));
        b.truncate(n);
      },
      1 => {
        for _ in 0 .. 1 + r.below(4) {
          if !b.is_empty() {
            let i = r.idx(b.len());
            b[i] = *r.pick(&[0, 1, 0x7f, 0xff, b[i] ^ 1, b[i] ^ 0x80]);
          }
        }
      },
      2 => {
        let n = r.below(200);
        b = r.bytes(n as usize);
      },
      _ => {
        // A length out of bounds.
        if b.len() >= 8 {
          let i = r.idx(b.len() - 7);
          let n = *r.pick(&[u64::MAX, 1 << 40, 1 << 31, b.len() as u64]);
          b[i .. i + 8].copy_from_slice(&n.to_le_bytes());
        }
      },
    }
    self.w.say(format!("spoiled, {how}: {b:?}"));
    std::fs::write(&self.file, &b).unwrap();
    self.c.count("spoiled files");
    if how == 0 {
      // Nothing of it can be told any more.
      self.w.disk = vec![None];
      return;
    }
    let disk = self.w.disk.clone();
    let started = {
      let w = &mut self.w;
      w.disk = vec![None];
      w.start_unsure().await
    };
    if !started {
      return;
    }
    let (mut at, mut s) = (0, "s0".to_string());
    for _ in 0 .. r.below(8) {
      let l = a_log(r, 2, &mut at, &mut s);
      let dest = wf::subset(r, &["t0", "t1", "c0"], 1, 2);
      self.w.log(r, &l, &dest, false).await;
      if self.w.lost {
        return;
      }
    }
    self.w.save(true).await;
    self.w.stop().await;
    drop(disk);
    let _ = std::fs::remove_file(&self.file);
    self.w.disk = vec![None];
  }
}

pub fn run(c: &Check) {
  c.rule("over restarts the workflows are as in a model that goes on from what was written last");
  c.assume("workflow and action identifiers are unique within a configuration");
  let n = c.n(4_000, 100_000);
  c.cases(n, Duration::from_secs(if c.thorough() { 600 } else { 14 }), |case, r| {
    let dir = vh::Scratch::new();
    rt().block_on(async {
      let pool = Pool::new(r);
      let mut w = World::new(c, dir.path());
      w.config = configs(r, &pool);
      w.triggers = wf::subset(r, &wf::TRIGGERS, 4, 5);
      w.continuous = wf::subset(r, &wf::CONTINUOUS, 2, 3);
      let mut s = Saves { c, w, file: dir.path().join(STATE), save_ms: 0, poll_ms: 0, last: None, touched: true };
      let (mut at, mut session) = (0, "s0".to_string());
      for _ in 0 .. 2 + r.below(4) {
        s.start(r, &pool).await;
        for _ in 0 .. r.below(25) {
          if s.w.lost {
            return;
          }
          match r.below(16) {
            0 => {
              s.touched = true;
              s.w.answer(r).await;
            },
            1 => s.wait(r).await,
            2 => s.w.finish(r),
            3 if r.chance(1, 3) => {
              reconfigure(r, &mut s.w, &pool);
              s.w.update();
              s.touched = true;
            },
            4 | 5 => s.save(r.chance(1, 2)).await,
            6 if r.chance(1, 3) => {
              if s.mishap(r).await {
                break;
              }
            },
            _ => {
              s.touched = true;
              let l = a_log(r, 3, &mut at, &mut session);
              let dest = wf::subset(r, &["t0", "t1", "t2", "c0", "c1", "x"], 1, 2);
              s.w.log(r, &l, &dest, true).await;
            },
          }
        }
        if s.w.lost {
          return;
        }
        if r.chance(1, 3) && s.w.e.is_some() {
          s.save(true).await;
        }
        s.w.stop().await;
        if r.chance(1, 12) {
          s.spoil(r).await;
          if s.w.lost {
            return;
          }
        }
        if r.chance(1, 6) {
          session = format!("s{}", r.below(3));
        }
      }
      if case < 3 {
        c.sample(|| format!("{:?} after {:?}", s.w.config, s.w.trail));
      }
      c.eval(Some(vh::hash_of(&format!("{:?} {:?}", s.w.config, s.w.trail))));
    });
  });
}
