//! A stream of which only some pieces exist in memory: positions beyond 4 GiB without the bytes before them.
use std::io::{Error, Read, Result, Seek, SeekFrom, Write};

#[derive(Clone, Debug)]
pub struct Far {
    /// the pieces, ascending and disjoint; writing extends the last one
    pub segs: Vec<(u64, Vec<u8>)>,
    /// what is read between the pieces
    pub fill: u8,
    pub pos: u64,
}

impl Far {
    pub fn new(segs: Vec<(u64, Vec<u8>)>, fill: u8) -> Far {
        Far { segs, fill, pos: 0 }
    }
    pub fn of(b: Vec<u8>) -> Far {
        Far::new(vec![(0, b)], 0)
    }
    pub fn set_position(&mut self, p: u64) {
        self.pos = p;
    }
    pub fn position(&self) -> u64 {
        self.pos
    }
    /// The bytes of the last piece.
    pub fn into_last(mut self) -> Vec<u8> {
        self.segs.pop().map(|s| s.1).unwrap_or_default()
    }
    pub fn end(&self) -> u64 {
        self.segs.last().map_or(0, |s| s.0 + s.1.len() as u64)
    }
    /// The bytes at a position, if all of them exist in one piece.
    pub fn at(&self, pos: u64, n: u64) -> Option<&[u8]> {
        let (start, b) = self.segs.iter().rev().find(|s| s.0 <= pos)?;
        let from = usize::try_from(pos - start).ok()?;
        b.get(from..from.checked_add(usize::try_from(n).ok()?)?)
    }
}

impl Read for Far {
    fn read(&mut self, out: &mut [u8]) -> Result<usize> {
        let i = self.segs.partition_point(|s| s.0 <= self.pos);
        if i > 0 {
            let (start, b) = &self.segs[i - 1];
            let off = self.pos - start;
            if off < b.len() as u64 {
                let n = out.len().min(b.len() - off as usize);
                out[..n].copy_from_slice(&b[off as usize..off as usize + n]);
                self.pos += n as u64;
                return Ok(n);
            }
        }
        let Some(next) = self.segs.get(i) else { return Ok(0) };
        let n = out.len().min(usize::try_from(next.0 - self.pos).unwrap_or(usize::MAX));
        out[..n].fill(self.fill);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Far {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let (base, d) = match p {
            SeekFrom::Start(n) => {
                self.pos = n;
                return Ok(n);
            }
            SeekFrom::Current(d) => (self.pos, d),
            SeekFrom::End(d) => (self.end(), d),
        };
        self.pos = base.checked_add_signed(d).ok_or_else(|| Error::new(std::io::ErrorKind::InvalidInput, "seek before the start"))?;
        Ok(self.pos)
    }
}

impl Write for Far {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        if self.segs.is_empty() {
            self.segs.push((0, vec![]));
        }
        let (start, v) = self.segs.last_mut().unwrap();
        if self.pos < *start {
            return Err(Error::other("written before the piece that exists"));
        }
        let off = (self.pos - *start) as usize;
        if v.len() < off + b.len() {
            v.resize(off + b.len(), 0);
        }
        v[off..off + b.len()].copy_from_slice(b);
        self.pos += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
