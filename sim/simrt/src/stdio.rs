//! Standard input and output of the simulated processes.
//!
//! The standard library has one buffer (and one lock) for each in the whole process. They
//! are exchanged whenever another simulated process gets to run, so that nothing of one
//! process is ever written or read by another one.
use std::cell::RefCell;
use std::io::{self, BufReader, LineWriter, Write};
use std::mem::size_of;
use std::sync::Mutex;

struct Zst;
impl Write for Zst {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Stream {
    at: *mut u64,
    words: usize,
    /// as it is before it is used, and which word is the address of the buffer
    fresh: Vec<u64>,
    buffer: usize,
    capacity: usize,
    saved: Vec<Option<Vec<u64>>>,
}

impl Stream {
    unsafe fn read(&self) -> Vec<u64> {
        (0..self.words).map(|i| *self.at.add(i)).collect()
    }
    unsafe fn switch(&mut self, from: usize, to: usize) {
        let now = self.read();
        let n = from.max(to) + 1;
        if self.saved.len() < n {
            self.saved.resize(n, None);
        }
        self.saved[from] = Some(now);
        let new = self.saved[to].take().unwrap_or_else(|| {
            let mut w = self.fresh.clone();
            w[self.buffer] = Box::leak(vec![0u8; self.capacity].into_boxed_slice()).as_ptr() as u64;
            w
        });
        for (i, w) in new.iter().enumerate() {
            *self.at.add(i) = *w;
        }
    }
}

static mut STREAMS: Vec<Stream> = Vec::new();
static mut LOADED: usize = 0;

/// Finds out where the buffers are; nothing is exchanged if they do not look as expected.
#[allow(static_mut_refs)]
pub fn init() {
    unsafe {
        if !STREAMS.is_empty() {
            return;
        }
        let mut out = io::stdout();
        let mut input = io::stdin();
        let at_out = *(&mut out as *mut io::Stdout as *const *mut u64);
        let at_in = *(&mut input as *mut io::Stdin as *const *mut u64);
        let mut found = Vec::new();

        let mut s = Stream {
            at: at_out,
            words: (16 + size_of::<RefCell<LineWriter<Zst>>>()) / 8,
            fresh: Vec::new(),
            buffer: 0,
            capacity: 1024,
            saved: Vec::new(),
        };
        let before = s.read();
        let _ = out.write(b"y");
        let after = s.read();
        let changed: Vec<usize> = (0..s.words).filter(|i| before[*i] != after[*i]).collect();
        let pointers: Vec<usize> = (0..s.words).filter(|i| before[*i] > 1 << 16).collect();
        let capacity = before.iter().filter(|w| **w == 1024).count();
        match (&changed[..], &pointers[..], capacity) {
            (&[len], &[p], 1)
                if before[len] == 0 && after[len] == 1 && *(after[p] as *const u8) == b'y' =>
            {
                *s.at.add(len) = 0;
                s.fresh = before;
                s.buffer = p;
                found.push(s);
            }
            _ => panic!("standard output does not look as expected: {:?} {:?}", before, after),
        }

        let mut s = Stream {
            at: at_in,
            words: size_of::<Mutex<BufReader<io::Empty>>>() / 8,
            fresh: Vec::new(),
            buffer: 0,
            capacity: 8192,
            saved: Vec::new(),
        };
        let now = s.read();
        let pointers: Vec<usize> = (0..s.words).filter(|i| now[*i] > 1 << 16).collect();
        match (&pointers[..], now.iter().filter(|w| **w == 8192).count()) {
            (&[p], 1) => {
                s.fresh = now;
                s.buffer = p;
                found.push(s);
            }
            _ => panic!("standard input does not look as expected: {:?}", now),
        }
        STREAMS = found;
    }
}

/// A thread of `proc` is about to run.
#[allow(static_mut_refs)]
pub fn switch(proc: usize) {
    unsafe {
        if LOADED == proc {
            return;
        }
        for s in STREAMS.iter_mut() {
            s.switch(LOADED, proc);
        }
        LOADED = proc;
    }
}

/// What a futex is known by: those of the exchanged streams belong to one process.
#[allow(static_mut_refs)]
pub fn futex_key(a: usize) -> usize {
    unsafe {
        for s in STREAMS.iter() {
            if a >= s.at as usize && a < s.at as usize + 8 * s.words {
                return a ^ ((crate::cur_proc() + 1) << 48);
            }
        }
    }
    a
}
