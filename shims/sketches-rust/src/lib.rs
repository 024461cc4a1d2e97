//! Stand-in for the sketches-rust fork, which cannot be fetched here: a logarithmic quantile sketch
//! with the same interface (relative accuracy, collapsing lowest bins) and an encoding of its own.
use std::collections::BTreeMap;
use std::fmt;

#[derive(Debug)]
pub struct Error(&'static str);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Debug)]
pub struct DDSketch {
    gamma: f64,
    max_bins: usize,
    pos: BTreeMap<i32, f64>,
    neg: BTreeMap<i32, f64>,
    zero: f64,
    sum: f64,
}

impl DDSketch {
    pub fn logarithmic_collapsing_lowest_dense(accuracy: f64, max_bins: usize) -> Result<Self, Error> {
        if !(accuracy > 0.0 && accuracy < 1.0) {
            return Err(Error("accuracy"));
        }
        Ok(DDSketch {
            gamma: (1.0 + accuracy) / (1.0 - accuracy),
            max_bins,
            pos: BTreeMap::new(),
            neg: BTreeMap::new(),
            zero: 0.0,
            sum: 0.0,
        })
    }
    fn key(&self, v: f64) -> i32 {
        (v.ln() / self.gamma.ln()).ceil() as i32
    }
    fn collapse(m: &mut BTreeMap<i32, f64>, max: usize) {
        while m.len() > max {
            let (_, c) = m.pop_first().unwrap();
            *m.first_entry().unwrap().get_mut() += c;
        }
    }
    pub fn accept(&mut self, v: f64) {
        self.accept_with_count(v, 1.0)
    }
    pub fn accept_with_count(&mut self, v: f64, n: f64) {
        if v > 0.0 {
            let k = self.key(v);
            *self.pos.entry(k).or_default() += n;
            Self::collapse(&mut self.pos, self.max_bins);
        } else if v < 0.0 {
            let k = self.key(-v);
            *self.neg.entry(k).or_default() += n;
            Self::collapse(&mut self.neg, self.max_bins);
        } else {
            self.zero += n;
        }
        self.sum += v * n;
    }
    pub fn merge_with(&mut self, o: &Self) -> Result<(), Error> {
        for (k, c) in &o.pos {
            *self.pos.entry(*k).or_default() += c;
        }
        for (k, c) in &o.neg {
            *self.neg.entry(*k).or_default() += c;
        }
        Self::collapse(&mut self.pos, self.max_bins);
        Self::collapse(&mut self.neg, self.max_bins);
        self.zero += o.zero;
        self.sum += o.sum;
        Ok(())
    }
    pub fn get_count(&mut self) -> f64 {
        self.count()
    }
    pub fn count(&self) -> f64 {
        self.zero + self.pos.values().sum::<f64>() + self.neg.values().sum::<f64>()
    }
    pub fn get_sum(&mut self) -> Option<f64> {
        if self.is_empty() {
            None
        } else {
            Some(self.sum)
        }
    }
    pub fn is_empty(&self) -> bool {
        self.count() == 0.0
    }
    pub fn clear(&mut self) {
        self.pos.clear();
        self.neg.clear();
        self.zero = 0.0;
        self.sum = 0.0;
    }
    pub fn encode(&self) -> Result<Vec<u8>, Error> {
        let mut v = vec![0xD5u8];
        v.extend(self.zero.to_le_bytes());
        v.extend(self.sum.to_le_bytes());
        for m in [&self.pos, &self.neg] {
            v.extend((m.len() as u32).to_le_bytes());
            for (k, c) in m {
                v.extend(k.to_le_bytes());
                v.extend(c.to_le_bytes());
            }
        }
        Ok(v)
    }
    pub fn decode_and_merge_with(&mut self, b: &[u8]) -> Result<(), Error> {
        let mut p = b;
        let mut take = |n: usize| -> Result<&[u8], Error> {
            if p.len() < n {
                return Err(Error("truncated"));
            }
            let (a, r) = p.split_at(n);
            p = r;
            Ok(a)
        };
        if take(1)? != [0xD5] {
            return Err(Error("bad sketch"));
        }
        let mut o = self.clone();
        o.clear();
        o.zero = f64::from_le_bytes(take(8)?.try_into().unwrap());
        o.sum = f64::from_le_bytes(take(8)?.try_into().unwrap());
        for i in 0..2 {
            let n = u32::from_le_bytes(take(4)?.try_into().unwrap());
            for _ in 0..n {
                let k = i32::from_le_bytes(take(4)?.try_into().unwrap());
                let c = f64::from_le_bytes(take(8)?.try_into().unwrap());
                *if i == 0 { &mut o.pos } else { &mut o.neg }.entry(k).or_default() += c;
            }
        }
        self.merge_with(&o)
    }
}
