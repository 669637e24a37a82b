//! Stand-in for the gazetteer-entity-parser crate re-exported by snips-nlu-parsers.
use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::ops::Range;
use std::path::Path;

use failure::{bail, format_err, Error, ResultExt};
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct EntityValue {
    pub raw_value: String,
    pub resolved_value: String,
}

#[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct Gazetteer {
    pub data: Vec<EntityValue>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Metadata {
    version: String,
    parser_filename: String,
    threshold: f32,
    #[serde(default)]
    stop_words: Vec<String>,
    #[serde(default)]
    edge_cases: Vec<String>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Data {
    vanilla: Vec<EntityValue>,
    #[serde(default)]
    injected: Vec<EntityValue>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Parser {
    metadata: Metadata,
    data: Data,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Found {
    pub value: String,
    pub resolved_value: String,
    pub alternatives: Vec<String>,
    pub range: Range<usize>,
}

impl Parser {
    pub fn from_folder<P: AsRef<Path>>(folder: P) -> Result<Parser, Error> {
        let metadata_path = folder.as_ref().join("metadata.json");
        let file = fs::File::open(&metadata_path)
            .with_context(|_| format!("Cannot open metadata of entity parser {:?}", metadata_path))?;
        let metadata: Metadata = serde_json::from_reader(file)
            .with_context(|_| "Cannot deserialize the metadata of the entity parser")?;
        let bytes = fs::read(folder.as_ref().join(&metadata.parser_filename))
            .with_context(|_| "Cannot read the entity parser file")?;
        let data = if bytes.first() == Some(&b'{') {
            serde_json::from_slice(&bytes).with_context(|_| "Cannot read the entity parser data")?
        } else {
            Data { vanilla: read_msgpack_values(&bytes)?, injected: vec![] }
        };
        Ok(Parser { metadata, data })
    }

    pub fn values(&self) -> Vec<EntityValue> {
        let mut values = self.data.injected.clone();
        values.extend(self.data.vanilla.iter().cloned());
        values
    }

    pub fn inject_new_values(
        &mut self,
        new_values: Vec<EntityValue>,
        prepend: bool,
        from_vanilla: bool,
    ) -> Result<(), Error> {
        if new_values.iter().any(|v| v.raw_value.contains("injecterror")) {
            bail!("scripted failure of the injection");
        }
        if from_vanilla {
            self.data.injected.clear();
        }
        let mut injected = vec![];
        if prepend {
            injected.extend(new_values);
            injected.extend(self.data.injected.drain(..));
        } else {
            injected.extend(self.data.injected.drain(..));
            injected.extend(new_values);
        }
        self.data.injected = injected;
        Ok(())
    }

    pub fn dump<P: AsRef<Path>>(&self, folder: P) -> Result<(), Error> {
        crash_point("dump-start");
        fs::create_dir(folder.as_ref())
            .with_context(|_| format!("Cannot create folder {:?}", folder.as_ref()))?;
        crash_point("dump-middle");
        if self.data.injected.iter().any(|v| v.raw_value.contains("dumperror")) {
            bail!("scripted failure of the dump");
        }
        fs::write(
            folder.as_ref().join("metadata.json"),
            serde_json::to_vec(&self.metadata)?,
        )?;
        fs::write(
            folder.as_ref().join(&self.metadata.parser_filename),
            serde_json::to_vec(&self.data)?,
        )?;
        crash_point("dump-end");
        Ok(())
    }

    /// Matches, from left to right, the longest runs of sentence words which are words of a value, in
    /// their order, covering at least the share `threshold` of this value.
    pub fn run(&self, sentence: &str, max_alternatives: usize) -> Vec<Found> {
        let mut words: Vec<(String, Range<usize>)> = vec![];
        let mut current: Option<(String, usize)> = None;
        let mut n = 0;
        for (i, c) in sentence.chars().enumerate() {
            n = i + 1;
            if c == ' ' {
                if let Some((w, s)) = current.take() {
                    words.push((w, s..i));
                }
            } else {
                current.get_or_insert_with(|| (String::new(), i)).0.push(c);
            }
        }
        if let Some((w, s)) = current {
            words.push((w, s..n));
        }
        let values: Vec<(Vec<String>, String)> = self
            .values()
            .into_iter()
            .map(|v| (v.raw_value.split_whitespace().map(|w| w.to_string()).collect(), v.resolved_value))
            .collect();
        let chars: Vec<char> = sentence.chars().collect();
        let mut found = vec![];
        let mut i = 0;
        while i < words.len() {
            let mut best = 0;
            let mut resolved: Vec<(usize, usize)> = vec![];
            for (rank, (value_words, _)) in values.iter().enumerate() {
                let mut len = 0;
                let mut pos = 0;
                while i + len < words.len() {
                    match value_words[pos..].iter().position(|w| *w == words[i + len].0) {
                        Some(p) => pos += p + 1,
                        None => break,
                    }
                    len += 1;
                }
                if len == 0 || (len as f32) < self.metadata.threshold * value_words.len() as f32 {
                    continue;
                }
                if len > best {
                    best = len;
                    resolved.clear();
                }
                if len == best {
                    resolved.push((rank, value_words.len()));
                }
            }
            if best == 0 {
                i += 1;
                continue;
            }
            let range = words[i].1.start..words[i + best - 1].1.end;
            let mut names: Vec<String> = vec![];
            for (rank, _) in resolved {
                if !names.contains(&values[rank].1) {
                    names.push(values[rank].1.clone());
                }
            }
            found.push(Found {
                value: chars[range.clone()].iter().collect(),
                resolved_value: names[0].clone(),
                alternatives: names[1..].iter().take(max_alternatives).cloned().collect(),
                range,
            });
            i += best;
        }
        found
    }
}

/// `VERIF_CRASH=<point>:<n>` ends the process at the n-th passage (from 1) at this point
fn crash_point(point: &str) {
    use std::sync::Mutex;
    static PASSED: Mutex<Option<HashMap<String, usize>>> = Mutex::new(None);
    if let Ok(spec) = std::env::var("VERIF_CRASH") {
        let mut passed = PASSED.lock().unwrap();
        let count = passed.get_or_insert_with(HashMap::new).entry(point.to_string()).or_insert(0);
        *count += 1;
        if spec == format!("{}:{}", point, count) {
            std::process::exit(77);
        }
    }
}

/// Reads the values of a parser file of gazetteer-entity-parser 0.7: an array that begins with the
/// symbol table of the tokens, that of the resolved values, the resolved values of each token and the
/// (rank, tokens) of each resolved value.
fn read_msgpack_values(bytes: &[u8]) -> Result<Vec<EntityValue>, Error> {
    let mut reader = MsgPack { bytes, pos: 0 };
    let root = reader.read()?;
    let root = root.array()?;
    let invert = |v: &Value| -> Result<BTreeMap<i64, String>, Error> {
        let mut table = BTreeMap::new();
        match &v.array()?[0] {
            Value::Map(entries) => {
                for (k, v) in entries {
                    match (k, v) {
                        (Value::Str(s), Value::Int(i)) => {
                            table.insert(*i, s.clone());
                        }
                        (Value::Int(i), Value::Str(s)) => {
                            table.insert(*i, s.clone());
                        }
                        _ => bail!("unexpected symbol table"),
                    }
                }
            }
            _ => bail!("unexpected symbol table"),
        }
        Ok(table)
    };
    let get = |i: usize| root.get(i).ok_or_else(|| format_err!("parser file too short"));
    let tokens = invert(get(0)?)?;
    let resolved = invert(get(1)?)?;
    let mut values = vec![];
    if let Value::Map(entries) = get(3)? {
        for (k, v) in entries {
            let (rank, words) = match v.array()? {
                [Value::Int(rank), words] => (*rank, words.array()?),
                _ => bail!("unexpected value entry"),
            };
            let words: Vec<&str> = words
                .iter()
                .map(|w| match w {
                    Value::Int(i) => tokens.get(i).map(|t| &**t).ok_or_else(|| format_err!("bad token")),
                    _ => bail!("bad token"),
                })
                .collect::<Result<_, Error>>()?;
            let name = match k {
                Value::Int(i) => resolved.get(i).ok_or_else(|| format_err!("bad value"))?,
                _ => bail!("bad value"),
            };
            values.push((rank, EntityValue { raw_value: words.join(" "), resolved_value: name.clone() }));
        }
    }
    values.sort_by_key(|(rank, _)| *rank);
    Ok(values.into_iter().map(|(_, v)| v).collect())
}

#[derive(Debug, Clone)]
enum Value {
    Int(i64),
    Str(String),
    Array(Vec<Value>),
    Map(Vec<(Value, Value)>),
    Other,
}

impl Value {
    fn array(&self) -> Result<&[Value], Error> {
        match self {
            Value::Array(a) => Ok(a),
            _ => bail!("array expected"),
        }
    }
}

struct MsgPack<'a> {
    bytes: &'a [u8],
    pos: usize,
}

impl<'a> MsgPack<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], Error> {
        if self.pos + n > self.bytes.len() {
            bail!("truncated parser file");
        }
        let s = &self.bytes[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    fn uint(&mut self, n: usize) -> Result<u64, Error> {
        Ok(self.take(n)?.iter().fold(0, |acc, b| (acc << 8) | u64::from(*b)))
    }
    fn str(&mut self, n: usize) -> Result<Value, Error> {
        Ok(Value::Str(String::from_utf8(self.take(n)?.to_vec())?))
    }
    fn array(&mut self, n: usize) -> Result<Value, Error> {
        Ok(Value::Array((0..n).map(|_| self.read()).collect::<Result<_, _>>()?))
    }
    fn map(&mut self, n: usize) -> Result<Value, Error> {
        Ok(Value::Map((0..n).map(|_| Ok((self.read()?, self.read()?))).collect::<Result<_, Error>>()?))
    }
    fn read(&mut self) -> Result<Value, Error> {
        let tag = self.take(1)?[0];
        match tag {
            0x00..=0x7f => Ok(Value::Int(i64::from(tag))),
            0x80..=0x8f => self.map((tag & 0x0f) as usize),
            0x90..=0x9f => self.array((tag & 0x0f) as usize),
            0xa0..=0xbf => self.str((tag & 0x1f) as usize),
            0xc0 | 0xc2 | 0xc3 => Ok(Value::Other),
            0xca => self.take(4).map(|_| Value::Other),
            0xcb => self.take(8).map(|_| Value::Other),
            0xcc => Ok(Value::Int(self.uint(1)? as i64)),
            0xcd => Ok(Value::Int(self.uint(2)? as i64)),
            0xce => Ok(Value::Int(self.uint(4)? as i64)),
            0xcf => Ok(Value::Int(self.uint(8)? as i64)),
            0xd9 => { let n = self.uint(1)? as usize; self.str(n) }
            0xda => { let n = self.uint(2)? as usize; self.str(n) }
            0xdc => { let n = self.uint(2)? as usize; self.array(n) }
            0xdd => { let n = self.uint(4)? as usize; self.array(n) }
            0xde => { let n = self.uint(2)? as usize; self.map(n) }
            0xdf => { let n = self.uint(4)? as usize; self.map(n) }
            0xe0..=0xff => Ok(Value::Int(i64::from(tag as i8))),
            _ => bail!("unsupported byte {:x} in parser file", tag),
        }
    }
}
