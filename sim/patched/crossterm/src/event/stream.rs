//! Event stream over the input of the simulated terminal. That input comes on
//! file descriptor 0 as lines, each an event: `k MODS CODE` with MODS a subset of
//! `c`, `a`, `s` or `-` and CODE a name or `'` and a character; `r` for a change of the
//! size; `m` for the mouse; `e` for a failing read. Keys come as they are pressed in raw
//! mode, otherwise with the end of the line (Enter).
use std::{
    collections::VecDeque,
    io,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
    thread,
};

use futures_core::stream::Stream;

use super::{Event, KeyCode, KeyEvent, KeyModifiers, MouseEvent, MouseEventKind};
use crate::Result;

#[derive(Default)]
struct Queue {
    events: VecDeque<Result<Event>>,
    waker: Option<Waker>,
}

pub struct EventStream {
    queue: Arc<Mutex<Queue>>,
    started: bool,
}

fn code(s: &str) -> Option<KeyCode> {
    if let Some(c) = s.strip_prefix('\'') {
        return c.chars().next().map(KeyCode::Char);
    }
    Some(match s {
        "bkspc" => KeyCode::Backspace,
        "ret" => KeyCode::Enter,
        "left" => KeyCode::Left,
        "right" => KeyCode::Right,
        "up" => KeyCode::Up,
        "down" => KeyCode::Down,
        "home" => KeyCode::Home,
        "end" => KeyCode::End,
        "pgup" => KeyCode::PageUp,
        "pgdown" => KeyCode::PageDown,
        "tab" => KeyCode::Tab,
        "backtab" => KeyCode::BackTab,
        "del" => KeyCode::Delete,
        "ins" => KeyCode::Insert,
        "f1" => KeyCode::F(1),
        "f12" => KeyCode::F(12),
        "null" => KeyCode::Null,
        "esc" => KeyCode::Esc,
        _ => return None,
    })
}

fn event(line: &str) -> Option<Result<Event>> {
    if let Some(k) = line.strip_prefix("k ") {
        let i = k.find(' ')?;
        let mut modifiers = KeyModifiers::empty();
        for m in k[..i].chars() {
            match m {
                'c' => modifiers |= KeyModifiers::CONTROL,
                'a' => modifiers |= KeyModifiers::ALT,
                's' => modifiers |= KeyModifiers::SHIFT,
                _ => (),
            }
        }
        let code = code(&k[i + 1..])?;
        return Some(Ok(Event::Key(KeyEvent { code, modifiers })));
    }
    match line {
        // the size is looked up when the signal is handled
        "r" => Some(crate::terminal::size().map(|(w, h)| Event::Resize(w, h))),
        "m" => Some(Ok(Event::Mouse(MouseEvent {
            kind: MouseEventKind::Moved,
            column: 0,
            row: 0,
            modifiers: KeyModifiers::empty(),
        }))),
        "e" => Some(Err(io::Error::from_raw_os_error(libc::EIO))),
        "e i" => Some(Err(io::Error::from(io::ErrorKind::Interrupted))),
        "e o" => Some(Err(io::Error::new(io::ErrorKind::Other, "Failed to \"read\""))),
        _ => None,
    }
}

fn reader(queue: Arc<Mutex<Queue>>) {
    let mut rest: Vec<u8> = Vec::new();
    let mut buf = [0u8; 1024];
    let mut held: Vec<Result<Event>> = Vec::new();
    loop {
        let n = unsafe { libc::read(0, buf.as_mut_ptr() as *mut libc::c_void, buf.len()) };
        if n <= 0 {
            return;
        }
        rest.extend_from_slice(&buf[..n as usize]);
        while let Some(i) = rest.iter().position(|b| *b == b'\n') {
            let line: Vec<u8> = rest.drain(..=i).collect();
            if let Some(e) = event(&String::from_utf8_lossy(&line[..i])) {
                let enter = matches!(e, Ok(Event::Key(KeyEvent { code: KeyCode::Enter, .. })));
                let key = matches!(e, Ok(Event::Key(_)));
                held.push(e);
                if key && !enter && !crate::terminal::is_raw_mode_enabled().unwrap_or(true) {
                    continue;
                }
                let mut q = queue.lock().unwrap();
                q.events.extend(held.drain(..));
                if let Some(w) = q.waker.take() {
                    drop(q);
                    w.wake();
                }
            }
        }
    }
}

impl Default for EventStream {
    fn default() -> Self {
        EventStream { queue: Default::default(), started: false }
    }
}

impl EventStream {
    /// Constructs a new instance of `EventStream`.
    pub fn new() -> EventStream {
        EventStream::default()
    }
}

impl Stream for EventStream {
    type Item = Result<Event>;

    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        if !self.started {
            self.started = true;
            let queue = self.queue.clone();
            thread::spawn(move || reader(queue));
        }
        let mut q = self.queue.lock().unwrap();
        match q.events.pop_front() {
            Some(e) => Poll::Ready(Some(e)),
            None => {
                q.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
