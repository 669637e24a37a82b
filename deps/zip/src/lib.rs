//! Stand-in for the reading half of zip 0.5 (stored and deflated entries).
pub mod result {
    use std::{error, fmt, io};
    pub type ZipResult<T> = Result<T, ZipError>;
    #[derive(Debug)]
    pub enum ZipError {
        Io(io::Error),
        InvalidArchive(&'static str),
        UnsupportedArchive(&'static str),
        FileNotFound,
    }
    impl fmt::Display for ZipError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match self {
                ZipError::Io(e) => e.fmt(f),
                ZipError::InvalidArchive(s) => write!(f, "invalid Zip archive: {}", s),
                ZipError::UnsupportedArchive(s) => write!(f, "unsupported Zip archive: {}", s),
                ZipError::FileNotFound => write!(f, "specified file not found in archive"),
            }
        }
    }
    impl error::Error for ZipError {}
    impl From<io::Error> for ZipError {
        fn from(e: io::Error) -> Self {
            ZipError::Io(e)
        }
    }
    impl From<ZipError> for io::Error {
        fn from(e: ZipError) -> io::Error {
            io::Error::new(io::ErrorKind::Other, e)
        }
    }
}
pub mod read {
    use super::result::{ZipError, ZipResult};
    use super::CompressionMethod;
    use std::io::{self, Read, Seek, SeekFrom};
    use std::path::{Component, Path, PathBuf};

    #[derive(Clone, Debug)]
    struct Entry {
        name: String,
        name_raw: Vec<u8>,
        method: u16,
        flags: u16,
        crc: u32,
        compressed: u64,
        size: u64,
        offset: u64,
        system: u8,
        external: u32,
        comment: String,
    }

    #[derive(Debug)]
    pub struct ZipArchive<R: Read + Seek> {
        reader: R,
        entries: Vec<Entry>,
        comment: Vec<u8>,
    }

    fn u16le(b: &[u8], i: usize) -> u16 {
        u16::from(b[i]) | (u16::from(b[i + 1]) << 8)
    }
    fn u32le(b: &[u8], i: usize) -> u32 {
        u32::from(u16le(b, i)) | (u32::from(u16le(b, i + 2)) << 16)
    }

    impl<R: Read + Seek> ZipArchive<R> {
        pub fn new(mut reader: R) -> ZipResult<Self> {
            let len = reader.seek(SeekFrom::End(0))?;
            let tail_len = len.min(22 + 65535);
            reader.seek(SeekFrom::Start(len - tail_len))?;
            let mut tail = vec![0u8; tail_len as usize];
            reader.read_exact(&mut tail)?;
            if tail.len() < 22 {
                return Err(ZipError::InvalidArchive("Invalid zip header"));
            }
            let pos = (0..=tail.len() - 22)
                .rev()
                .find(|&i| u32le(&tail, i) == 0x0605_4b50)
                .ok_or(ZipError::InvalidArchive("Could not find central directory end"))?;
            let eocd = &tail[pos..];
            let count = u16le(eocd, 10) as usize;
            let cd_size = u64::from(u32le(eocd, 12));
            let cd_offset = u64::from(u32le(eocd, 16));
            let eocd_pos = len - tail_len + pos as u64;
            let archive_offset = eocd_pos
                .checked_sub(cd_size)
                .and_then(|x| x.checked_sub(cd_offset))
                .ok_or(ZipError::InvalidArchive("Invalid central directory size or offset"))?;
            let comment_len = u16le(eocd, 20) as usize;
            let comment = eocd[22..(22 + comment_len).min(eocd.len())].to_vec();
            reader.seek(SeekFrom::Start(archive_offset + cd_offset))?;
            let mut entries = vec![];
            for _ in 0..count {
                let mut h = [0u8; 46];
                reader.read_exact(&mut h)?;
                if u32le(&h, 0) != 0x0201_4b50 {
                    return Err(ZipError::InvalidArchive("Invalid Central Directory header"));
                }
                let mut name_raw = vec![0u8; u16le(&h, 28) as usize];
                reader.read_exact(&mut name_raw)?;
                let mut extra = vec![0u8; u16le(&h, 30) as usize];
                reader.read_exact(&mut extra)?;
                let mut cmt = vec![0u8; u16le(&h, 32) as usize];
                reader.read_exact(&mut cmt)?;
                entries.push(Entry {
                    name: String::from_utf8_lossy(&name_raw).into_owned(),
                    name_raw,
                    flags: u16le(&h, 8),
                    method: u16le(&h, 10),
                    crc: u32le(&h, 16),
                    compressed: u64::from(u32le(&h, 20)),
                    size: u64::from(u32le(&h, 24)),
                    offset: archive_offset + u64::from(u32le(&h, 42)),
                    system: h[5],
                    external: u32le(&h, 38),
                    comment: String::from_utf8_lossy(&cmt).into_owned(),
                });
            }
            Ok(ZipArchive { reader, entries, comment })
        }
        pub fn len(&self) -> usize {
            self.entries.len()
        }
        pub fn is_empty(&self) -> bool {
            self.entries.is_empty()
        }
        pub fn comment(&self) -> &[u8] {
            &self.comment
        }
        pub fn file_names(&self) -> impl Iterator<Item = &str> {
            self.entries.iter().map(|e| &*e.name)
        }
        pub fn into_inner(self) -> R {
            self.reader
        }
        pub fn by_name<'a>(&'a mut self, name: &str) -> ZipResult<ZipFile<'a>> {
            let i = self
                .entries
                .iter()
                .rposition(|e| e.name == name)
                .ok_or(ZipError::FileNotFound)?;
            self.by_index(i)
        }
        pub fn by_index(&mut self, i: usize) -> ZipResult<ZipFile<'_>> {
            let entry = self.entries.get(i).cloned().ok_or(ZipError::FileNotFound)?;
            self.reader.seek(SeekFrom::Start(entry.offset))?;
            let mut h = [0u8; 30];
            self.reader.read_exact(&mut h)?;
            if u32le(&h, 0) != 0x0403_4b50 {
                return Err(ZipError::InvalidArchive("Invalid local file header"));
            }
            if entry.flags & 1 == 1 {
                return Err(ZipError::UnsupportedArchive("Password required to decrypt file"));
            }
            let start = entry.offset + 30 + u64::from(u16le(&h, 26)) + u64::from(u16le(&h, 28));
            self.reader.seek(SeekFrom::Start(start))?;
            let limited: io::Take<&mut dyn Read> =
                ((&mut self.reader) as &mut dyn Read).take(entry.compressed);
            let body: Box<dyn Read + '_> = match entry.method {
                0 => Box::new(limited),
                #[cfg(feature = "deflate")]
                8 => Box::new(flate2::read::DeflateDecoder::new(limited)),
                _ => return Err(ZipError::UnsupportedArchive("Compression method not supported")),
            };
            let crc = crc32fast::Hasher::new();
            Ok(ZipFile { entry, body, crc: Some(crc) })
        }
    }

    pub struct ZipFile<'a> {
        entry: Entry,
        body: Box<dyn Read + 'a>,
        crc: Option<crc32fast::Hasher>,
    }
    impl<'a> ZipFile<'a> {
        pub fn name(&self) -> &str {
            &self.entry.name
        }
        pub fn name_raw(&self) -> &[u8] {
            &self.entry.name_raw
        }
        pub fn comment(&self) -> &str {
            &self.entry.comment
        }
        pub fn sanitized_name(&self) -> PathBuf {
            self.mangled_name()
        }
        pub fn mangled_name(&self) -> PathBuf {
            let name = match self.entry.name.find('\0') {
                Some(i) => &self.entry.name[..i],
                None => &self.entry.name,
            };
            let name = name.replace('\\', "/");
            Path::new(&name)
                .components()
                .filter(|c| match c {
                    Component::Normal(_) => true,
                    _ => false,
                })
                .fold(PathBuf::new(), |mut p, c| {
                    p.push(c.as_os_str());
                    p
                })
        }
        pub fn enclosed_name(&self) -> Option<&Path> {
            if self.entry.name.contains('\0') {
                return None;
            }
            let path = Path::new(&self.entry.name);
            let mut depth = 0usize;
            for c in path.components() {
                match c {
                    Component::Prefix(_) | Component::RootDir => return None,
                    Component::ParentDir => depth = depth.checked_sub(1)?,
                    Component::Normal(_) => depth += 1,
                    Component::CurDir => (),
                }
            }
            Some(path)
        }
        pub fn compression(&self) -> CompressionMethod {
            match self.entry.method {
                0 => CompressionMethod::Stored,
                8 => CompressionMethod::Deflated,
                x => CompressionMethod::Unsupported(x),
            }
        }
        pub fn compressed_size(&self) -> u64 {
            self.entry.compressed
        }
        pub fn size(&self) -> u64 {
            self.entry.size
        }
        pub fn crc32(&self) -> u32 {
            self.entry.crc
        }
        pub fn is_dir(&self) -> bool {
            self.entry.name.ends_with('/') || self.entry.name.ends_with('\\')
        }
        pub fn is_file(&self) -> bool {
            !self.is_dir()
        }
        pub fn unix_mode(&self) -> Option<u32> {
            if self.entry.external == 0 || self.entry.system != 3 {
                None
            } else {
                Some(self.entry.external >> 16)
            }
        }
    }
    impl<'a> Read for ZipFile<'a> {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            let n = self.body.read(buf)?;
            if n == 0 {
                if !buf.is_empty() {
                    if let Some(h) = self.crc.take() {
                        if h.finalize() != self.entry.crc {
                            return Err(io::Error::new(io::ErrorKind::Other, "Invalid checksum"));
                        }
                    }
                }
            } else if let Some(h) = self.crc.as_mut() {
                h.update(&buf[..n]);
            }
            Ok(n)
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CompressionMethod {
    Stored,
    Deflated,
    Unsupported(u16),
}
pub use read::ZipArchive;
