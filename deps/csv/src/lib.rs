//! Stand-in for the reading half of csv 1.x (records of strings).
use std::io::Read;
use std::ops::Index;
use std::{error, fmt};

#[derive(Debug)]
pub enum ErrorKind {
    Io(std::io::Error),
    Utf8,
    UnequalLengths { expected_len: u64, len: u64 },
}
#[derive(Debug)]
pub struct Error(ErrorKind);
impl Error {
    pub fn kind(&self) -> &ErrorKind {
        &self.0
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            ErrorKind::Io(e) => e.fmt(f),
            ErrorKind::Utf8 => write!(f, "CSV parse error: invalid UTF-8"),
            ErrorKind::UnequalLengths { expected_len, len } => write!(
                f,
                "CSV error: found record with {} fields, but the previous record has {} fields",
                len, expected_len
            ),
        }
    }
}
impl error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Copy, Debug)]
pub enum Trim {
    None,
    Headers,
    Fields,
    All,
}

#[derive(Clone, Copy, Debug)]
pub enum Terminator {
    CRLF,
    Any(u8),
}

#[derive(Clone, Debug)]
pub struct ReaderBuilder {
    delimiter: u8,
    quoting: bool,
    quote: u8,
    escape: Option<u8>,
    double_quote: bool,
    comment: Option<u8>,
    flexible: bool,
    has_headers: bool,
    trim: Trim,
}
impl Default for ReaderBuilder {
    fn default() -> Self {
        Self::new()
    }
}
impl ReaderBuilder {
    pub fn new() -> Self {
        ReaderBuilder {
            delimiter: b',',
            quoting: true,
            quote: b'"',
            escape: None,
            double_quote: true,
            comment: None,
            flexible: false,
            has_headers: true,
            trim: Trim::None,
        }
    }
    pub fn delimiter(&mut self, d: u8) -> &mut Self {
        self.delimiter = d;
        self
    }
    pub fn quoting(&mut self, q: bool) -> &mut Self {
        self.quoting = q;
        self
    }
    pub fn quote(&mut self, q: u8) -> &mut Self {
        self.quote = q;
        self
    }
    pub fn escape(&mut self, q: Option<u8>) -> &mut Self {
        self.escape = q;
        self
    }
    pub fn double_quote(&mut self, q: bool) -> &mut Self {
        self.double_quote = q;
        self
    }
    pub fn comment(&mut self, q: Option<u8>) -> &mut Self {
        self.comment = q;
        self
    }
    pub fn flexible(&mut self, f: bool) -> &mut Self {
        self.flexible = f;
        self
    }
    pub fn has_headers(&mut self, h: bool) -> &mut Self {
        self.has_headers = h;
        self
    }
    pub fn trim(&mut self, t: Trim) -> &mut Self {
        self.trim = t;
        self
    }
    pub fn terminator(&mut self, _: Terminator) -> &mut Self {
        self
    }
    pub fn buffer_capacity(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn from_reader<R: Read>(&self, rdr: R) -> Reader<R> {
        Reader { cfg: self.clone(), rdr, records: None, header: None, pos: 0, expected: None }
    }
    pub fn from_path<P: AsRef<std::path::Path>>(&self, p: P) -> Result<Reader<std::fs::File>> {
        Ok(self.from_reader(std::fs::File::open(p).map_err(|e| Error(ErrorKind::Io(e)))?))
    }
}

pub struct Reader<R> {
    cfg: ReaderBuilder,
    rdr: R,
    records: Option<Vec<Vec<Vec<u8>>>>,
    header: Option<StringRecord>,
    pos: usize,
    expected: Option<usize>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct StringRecord(Vec<String>);
impl StringRecord {
    pub fn new() -> Self {
        StringRecord(vec![])
    }
    pub fn iter(&self) -> StringRecordIter<'_> {
        StringRecordIter(self.0.iter())
    }
    pub fn get(&self, i: usize) -> Option<&str> {
        self.0.get(i).map(|s| &**s)
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
#[derive(Clone)]
pub struct StringRecordIter<'a>(std::slice::Iter<'a, String>);
impl<'a> Iterator for StringRecordIter<'a> {
    type Item = &'a str;
    fn next(&mut self) -> Option<&'a str> {
        self.0.next().map(|s| &**s)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<'a> ExactSizeIterator for StringRecordIter<'a> {}
impl<'a> DoubleEndedIterator for StringRecordIter<'a> {
    fn next_back(&mut self) -> Option<&'a str> {
        self.0.next_back().map(|s| &**s)
    }
}
impl<'a> IntoIterator for &'a StringRecord {
    type Item = &'a str;
    type IntoIter = StringRecordIter<'a>;
    fn into_iter(self) -> StringRecordIter<'a> {
        self.iter()
    }
}
impl Index<usize> for StringRecord {
    type Output = str;
    fn index(&self, i: usize) -> &str {
        &self.0[i]
    }
}

fn split_records(cfg: &ReaderBuilder, data: &[u8]) -> Vec<Vec<Vec<u8>>> {
    let mut records = vec![];
    let mut record: Vec<Vec<u8>> = vec![];
    let mut field: Vec<u8> = vec![];
    let (mut in_quotes, mut at_start, mut empty_line) = (false, true, true);
    let mut i = 0;
    while i < data.len() {
        let b = data[i];
        if in_quotes {
            if cfg.escape == Some(b) && i + 1 < data.len() {
                i += 1;
                field.push(data[i]);
            } else if b == cfg.quote {
                if cfg.double_quote && data.get(i + 1) == Some(&cfg.quote) {
                    i += 1;
                    field.push(b);
                } else {
                    in_quotes = false;
                }
            } else {
                field.push(b);
            }
        } else if cfg.comment == Some(b) && empty_line {
            while i < data.len() && data[i] != b'\n' {
                i += 1;
            }
        } else if b == b'\n' || b == b'\r' {
            if !empty_line {
                record.push(std::mem::replace(&mut field, vec![]));
                records.push(std::mem::replace(&mut record, vec![]));
            }
            empty_line = true;
            at_start = true;
        } else if b == cfg.delimiter {
            record.push(std::mem::replace(&mut field, vec![]));
            at_start = true;
            empty_line = false;
        } else {
            empty_line = false;
            if at_start && cfg.quoting && b == cfg.quote {
                in_quotes = true;
            } else {
                field.push(b);
            }
            at_start = false;
        }
        i += 1;
    }
    if !empty_line {
        record.push(field);
        records.push(record);
    }
    records
}

impl Reader<std::fs::File> {
    pub fn from_path<P: AsRef<std::path::Path>>(p: P) -> Result<Self> {
        ReaderBuilder::new().from_path(p)
    }
}

impl<R: Read> Reader<R> {
    pub fn from_reader(rdr: R) -> Reader<R> {
        ReaderBuilder::new().from_reader(rdr)
    }
    fn fill(&mut self) -> Result<()> {
        if self.records.is_none() {
            let mut data = vec![];
            self.records = Some(vec![]);
            self.rdr.read_to_end(&mut data).map_err(|e| Error(ErrorKind::Io(e)))?;
            self.records = Some(split_records(&self.cfg, &data));
            if self.cfg.has_headers {
                self.header = Some(self.advance()?.unwrap_or_default());
            }
        }
        Ok(())
    }
    fn advance(&mut self) -> Result<Option<StringRecord>> {
        let fields = match self.records.as_ref().and_then(|r| r.get(self.pos)) {
            Some(f) => f.clone(),
            None => return Ok(None),
        };
        self.pos += 1;
        if !self.cfg.flexible {
            match self.expected {
                Some(e) if e != fields.len() => {
                    return Err(Error(ErrorKind::UnequalLengths {
                        expected_len: e as u64,
                        len: fields.len() as u64,
                    }))
                }
                _ => self.expected = Some(fields.len()),
            }
        }
        let trim = match self.cfg.trim {
            Trim::Fields | Trim::All => true,
            _ => false,
        };
        fields
            .into_iter()
            .map(|f| {
                String::from_utf8(f)
                    .map(|s| if trim { s.trim().to_string() } else { s })
                    .map_err(|_| Error(ErrorKind::Utf8))
            })
            .collect::<Result<Vec<_>>>()
            .map(|v| Some(StringRecord(v)))
    }
    pub fn headers(&mut self) -> Result<&StringRecord> {
        self.fill()?;
        if self.header.is_none() {
            let (pos, expected) = (self.pos, self.expected);
            self.pos = 0;
            let h = self.advance()?.unwrap_or_default();
            self.header = Some(h);
            self.pos = pos;
            self.expected = expected;
        }
        Ok(self.header.as_ref().unwrap())
    }
    pub fn read_record(&mut self, record: &mut StringRecord) -> Result<bool> {
        self.fill()?;
        match self.advance()? {
            Some(r) => {
                *record = r;
                Ok(true)
            }
            None => Ok(false),
        }
    }
    pub fn records(&mut self) -> StringRecordsIter<'_, R> {
        StringRecordsIter(self)
    }
    pub fn into_records(self) -> StringRecordsIntoIter<R> {
        StringRecordsIntoIter(self)
    }
}

pub struct StringRecordsIter<'r, R>(&'r mut Reader<R>);
impl<'r, R: Read> Iterator for StringRecordsIter<'r, R> {
    type Item = Result<StringRecord>;
    fn next(&mut self) -> Option<Self::Item> {
        let mut rec = StringRecord::new();
        match self.0.read_record(&mut rec) {
            Ok(true) => Some(Ok(rec)),
            Ok(false) => None,
            Err(e) => Some(Err(e)),
        }
    }
}
pub struct StringRecordsIntoIter<R>(Reader<R>);
impl<R: Read> Iterator for StringRecordsIntoIter<R> {
    type Item = Result<StringRecord>;
    fn next(&mut self) -> Option<Self::Item> {
        let mut rec = StringRecord::new();
        match self.0.read_record(&mut rec) {
            Ok(true) => Some(Ok(rec)),
            Ok(false) => None,
            Err(e) => Some(Err(e)),
        }
    }
}
