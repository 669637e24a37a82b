//! Stand-in for crfsuite-rs 0.3.3 (not available offline). See /verif/DESIGN.md, "Environment".
//!
//! Reads the models of CRFsuite (first-order, "FOMC") and, for scripted models, a JSON file:
//! `{"labels": [...], "weights": {"<name>:<value>": {"<label>": w}}, "transitions": {"<l1>": {"<l2>": w}}}`
use std::cell::RefCell;
use std::collections::HashMap;
use std::error::Error;
use std::fmt;
use std::fs;
use std::path::Path;

#[derive(Debug, Clone, PartialEq)]
pub struct CrfError(pub String);
impl fmt::Display for CrfError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "crfsuite error: {}", self.0)
    }
}
impl Error for CrfError {}
pub type Result<T> = std::result::Result<T, CrfError>;

fn err<T>(msg: &str) -> Result<T> {
    Err(CrfError(msg.to_string()))
}

#[derive(Debug, Clone, PartialEq)]
pub struct Attribute {
    pub name: String,
    pub value: f64,
}
impl Attribute {
    pub fn new<T: Into<String>>(name: T, value: f64) -> Self {
        Self { name: name.into(), value }
    }
}
impl From<(String, String)> for Attribute {
    fn from(t: (String, String)) -> Self {
        Attribute::new(format!("{}:{}", t.0, t.1), 1.0)
    }
}
impl<'a> From<(&'a str, &'a str)> for Attribute {
    fn from(t: (&'a str, &'a str)) -> Self {
        Attribute::new(format!("{}:{}", t.0, t.1), 1.0)
    }
}
impl From<String> for Attribute {
    fn from(t: String) -> Self {
        Attribute::new(t, 1.0)
    }
}
impl<'a> From<&'a str> for Attribute {
    fn from(t: &'a str) -> Self {
        Attribute::new(t, 1.0)
    }
}

#[derive(serde::Deserialize)]
struct Script {
    labels: Vec<String>,
    #[serde(default)]
    weights: HashMap<String, HashMap<String, f64>>,
    #[serde(default)]
    transitions: HashMap<String, HashMap<String, f64>>,
    /// time to sleep in `set`, so that other threads get a chance to interleave
    #[serde(default)]
    set_sleep_us: u64,
    #[serde(default)]
    fail_on: Option<String>,
}

/// Did a thread decode what another thread gave to a tagger?
pub mod verif_log {
    use std::sync::atomic::{AtomicBool, Ordering};
    pub static OVERLAP: AtomicBool = AtomicBool::new(false);
    pub fn overlap() -> bool {
        OVERLAP.load(Ordering::SeqCst)
    }
}

pub struct Tagger {
    labels: Vec<String>,
    state: HashMap<String, Vec<(usize, f64)>>,
    transitions: Vec<Vec<f64>>,
    current: RefCell<Option<Vec<Vec<Attribute>>>>,
    /// the thread that made the last `set`
    owner: RefCell<Option<std::thread::ThreadId>>,
    set_sleep_us: u64,
    fail_on: Option<String>,
}

unsafe impl Send for Tagger {}

impl Tagger {
    pub fn create_from_file<P: AsRef<Path>>(path: P) -> Result<Self> {
        let bytes = fs::read(path.as_ref())
            .map_err(|e| CrfError(format!("cannot read {:?}: {}", path.as_ref(), e)))?;
        Self::create_from_memory(bytes)
    }

    pub fn create_from_memory<B: AsRef<[u8]>>(bytes: B) -> Result<Self> {
        let bytes = bytes.as_ref();
        if bytes.starts_with(b"lCRF") {
            return read_model(bytes);
        }
        let script: Script = serde_json::from_slice(bytes)
            .map_err(|e| CrfError(format!("invalid model: {}", e)))?;
        let index: HashMap<&str, usize> =
            script.labels.iter().enumerate().map(|(i, l)| (&**l, i)).collect();
        let mut transitions = vec![vec![0.0; script.labels.len()]; script.labels.len()];
        for (from, tos) in script.transitions.iter() {
            for (to, w) in tos {
                if let (Some(f), Some(t)) = (index.get(&**from), index.get(&**to)) {
                    transitions[*f][*t] = *w;
                }
            }
        }
        let mut state = HashMap::new();
        for (attr, weights) in script.weights.iter() {
            let mut list = vec![];
            for (label, w) in weights {
                match index.get(&**label) {
                    Some(i) => list.push((*i, *w)),
                    None => return err("weight for an unknown label"),
                }
            }
            state.insert(attr.clone(), list);
        }
        Ok(Self {
            labels: script.labels.clone(),
            state,
            transitions,
            current: RefCell::new(None),
            owner: RefCell::new(None),
            set_sleep_us: script.set_sleep_us,
            fail_on: script.fail_on,
        })
    }

    pub fn labels(&self) -> Result<Vec<String>> {
        Ok(self.labels.clone())
    }

    pub fn set<A: Into<Attribute> + Clone>(&self, xseq: &[Vec<A>]) -> Result<()> {
        let items: Vec<Vec<Attribute>> =
            xseq.iter().map(|item| item.iter().cloned().map(|a| a.into()).collect()).collect();
        if let Some(name) = self.fail_on.as_ref() {
            if items.iter().flatten().any(|a| a.name == *name) {
                return err("scripted failure of the tagger");
            }
        }
        *self.current.borrow_mut() = Some(items);
        *self.owner.borrow_mut() = Some(std::thread::current().id());
        if self.set_sleep_us > 0 {
            std::thread::sleep(std::time::Duration::from_micros(self.set_sleep_us));
        }
        Ok(())
    }

    fn scores(&self) -> Result<Vec<Vec<f64>>> {
        if self.owner.borrow().map_or(false, |id| id != std::thread::current().id()) {
            verif_log::OVERLAP.store(true, std::sync::atomic::Ordering::SeqCst);
        }
        match self.current.borrow().as_ref() {
            None => err("no instance set"),
            Some(items) => Ok(items
                .iter()
                .map(|item| {
                    let mut s = vec![0.0; self.labels.len()];
                    for a in item {
                        if let Some(ws) = self.state.get(&a.name) {
                            for (l, w) in ws {
                                s[*l] += w * a.value;
                            }
                        }
                    }
                    s
                })
                .collect()),
        }
    }

    pub fn viterbi(&self) -> Result<Vec<String>> {
        let scores = self.scores()?;
        if scores.is_empty() {
            return Ok(vec![]);
        }
        let n = self.labels.len();
        if n == 0 {
            return err("model without labels");
        }
        let mut best = scores[0].clone();
        let mut back: Vec<Vec<usize>> = vec![];
        for s in &scores[1..] {
            let mut next = vec![0.0; n];
            let mut from = vec![0; n];
            for j in 0..n {
                let mut arg = 0;
                let mut max = best[0] + self.transitions[0][j];
                for i in 1..n {
                    let v = best[i] + self.transitions[i][j];
                    if v > max {
                        max = v;
                        arg = i;
                    }
                }
                next[j] = max + s[j];
                from[j] = arg;
            }
            best = next;
            back.push(from);
        }
        let mut last = 0;
        for j in 1..n {
            if best[j] > best[last] {
                last = j;
            }
        }
        let mut path = vec![last];
        for from in back.iter().rev() {
            last = from[last];
            path.push(last);
        }
        path.reverse();
        Ok(path.into_iter().map(|i| self.labels[i].clone()).collect())
    }

    pub fn tag<A: Into<Attribute> + Clone>(&self, xseq: &[Vec<A>]) -> Result<Vec<String>> {
        self.set(xseq)?;
        self.viterbi()
    }

    /// Probability of the sequence for the instance given to the last `set`
    pub fn probability<S: AsRef<str>>(&self, tags: &[S]) -> Result<f64> {
        let scores = self.scores()?;
        if scores.len() != tags.len() {
            return err("the number of items and labels differ");
        }
        if scores.is_empty() {
            return Ok(1.0);
        }
        let n = self.labels.len();
        let path = tags
            .iter()
            .map(|t| {
                self.labels
                    .iter()
                    .position(|l| l == t.as_ref())
                    .ok_or_else(|| CrfError(format!("unknown label {}", t.as_ref())))
            })
            .collect::<Result<Vec<usize>>>()?;
        let mut score = scores[0][path[0]];
        let lse = |v: &[f64]| -> f64 {
            let m = v.iter().cloned().fold(std::f64::NEG_INFINITY, f64::max);
            m + v.iter().map(|x| (x - m).exp()).sum::<f64>().ln()
        };
        let mut alpha = scores[0].clone();
        for t in 1..scores.len() {
            score += self.transitions[path[t - 1]][path[t]] + scores[t][path[t]];
            alpha = (0..n)
                .map(|j| {
                    let v: Vec<f64> = (0..n).map(|i| alpha[i] + self.transitions[i][j]).collect();
                    lse(&v) + scores[t][j]
                })
                .collect();
        }
        Ok((score - lse(&alpha)).exp())
    }

    pub fn marginal(&self, _label: &str, _position: i32) -> Result<f64> {
        err("marginal is not provided by the stand-in")
    }
}

fn read_model(b: &[u8]) -> Result<Tagger> {
    let u32_at = |o: usize| -> Result<usize> {
        b.get(o..o + 4)
            .map(|s| u32::from_le_bytes([s[0], s[1], s[2], s[3]]) as usize)
            .ok_or_else(|| CrfError("truncated model".to_string()))
    };
    // magic, size, type, version, num_features, num_labels, num_attrs, off_features, off_labels, off_attrs
    let (off_features, off_labels, off_attrs) = (u32_at(28)?, u32_at(32)?, u32_at(36)?);
    let names = |off: usize| -> Result<Vec<String>> {
        if b.get(off..off + 4) != Some(&b"CQDB"[..]) {
            return err("CQDB expected");
        }
        let (n, bwd) = (u32_at(off + 16)?, u32_at(off + 20)?);
        (0..n)
            .map(|i| {
                let o = off + u32_at(off + bwd + 4 * i)?;
                let size = u32_at(o + 4)?;
                let s = b
                    .get(o + 8..o + 8 + size - 1)
                    .ok_or_else(|| CrfError("truncated model".to_string()))?;
                String::from_utf8(s.to_vec()).map_err(|e| CrfError(e.to_string()))
            })
            .collect()
    };
    let labels = names(off_labels)?;
    let attrs = names(off_attrs)?;
    if b.get(off_features..off_features + 4) != Some(&b"FEAT"[..]) {
        return err("FEAT expected");
    }
    let n_features = u32_at(off_features + 8)?;
    let mut transitions = vec![vec![0.0; labels.len()]; labels.len()];
    let mut state: HashMap<String, Vec<(usize, f64)>> = HashMap::new();
    for i in 0..n_features {
        let o = off_features + 12 + 20 * i;
        let (kind, src, dst) = (u32_at(o)?, u32_at(o + 4)?, u32_at(o + 8)?);
        let mut w = [0u8; 8];
        w.copy_from_slice(b.get(o + 12..o + 20).ok_or_else(|| CrfError("truncated model".to_string()))?);
        let w = f64::from_bits(u64::from_le_bytes(w));
        match kind {
            0 => state.entry(attrs[src].clone()).or_insert_with(Vec::new).push((dst, w)),
            _ => transitions[src][dst] = w,
        }
    }
    Ok(Tagger {
        labels,
        state,
        transitions,
        current: RefCell::new(None),
        owner: RefCell::new(None),
        set_sleep_us: 0,
        fail_on: None,
    })
}
