//! What a C program does with the interface: only exported functions and C
//! structures, except that no function is exported to iterate over menu entries.
use serde_json::{json, Value};
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_void};

extern "C" {
    fn ced_connection_create(session: *const c_char) -> *mut c_void;
    fn ced_connection_next_event(p: *mut c_void) -> *mut CEvent;
    fn ced_connection_destroy(p: *mut c_void);
    fn ced_event_destroy(p: *mut CEvent);
    fn ced_last_error_length() -> c_int;
    fn ced_last_error_message(buffer: *mut c_char, length: c_int) -> c_int;
    fn ced_text_next_item(p: *mut c_void) -> *mut CTextItem;
    fn ced_text_item_destroy(p: *mut CTextItem);
    fn ced_text_iterator_destroy(p: *mut c_void);
    fn ced_status_next_item(p: *mut c_void) -> *mut CStatusItem;
    fn ced_status_item_destroy(p: *mut CStatusItem);
    fn ced_status_iterator_destroy(p: *mut c_void);
    fn ced_view_next_item(p: *mut c_void) -> *mut CViewItem;
    fn ced_view_item_destroy(p: *mut CViewItem);
    fn ced_view_iterator_destroy(p: *mut c_void);
    fn ced_view_lens_next_item(p: *mut c_void) -> *mut CViewLens;
    fn ced_view_lens_destroy(p: *mut CViewLens);
    fn ced_view_lens_iterator_destroy(p: *mut c_void);
}

// the structures as C sees them
#[repr(C)]
#[allow(dead_code)]
enum CEvent {
    Echo { message: *mut c_void },
    Info { client: *const c_char, session: *const c_char },
    Menu { command: *const c_char, title: *const c_char, search: *const c_char, items: *mut c_void, selected: u32 },
    Status { items: *mut c_void },
    View { items: *mut c_void },
}
#[repr(C)]
struct CTextItem {
    text: *const c_char,
    face: *const c_char,
}
#[repr(C)]
#[allow(dead_code)]
struct CMenuItem {
    value: *const c_char,
    text: *mut c_void,
    description: *const c_char,
}
#[repr(C)]
struct CStatusItem {
    index: c_int,
    text: *mut c_void,
}
#[repr(C)]
struct CViewItem {
    buffer: *const c_char,
    start: u32,
    end: u32,
    lenses: *mut c_void,
}
#[repr(C)]
struct CViewLens {
    lines: *mut c_void,
    first_line_num: u32,
}

/// The entries of a menu, None where they can't be read.
#[cfg(menu_items)]
unsafe fn entries(p: *mut c_void) -> Option<Vec<Value>> {
    let mut v = Vec::new();
    for i in Box::from_raw(p as *mut crate::cmenu::MenuIterator) {
        let c = &*(&i as *const _ as *const CMenuItem);
        v.push(json!({"value": string(c.value), "text": text(c.text), "description": string(c.description)}));
    }
    Some(v)
}
#[cfg(not(menu_items))]
unsafe fn entries(_: *mut c_void) -> Option<Vec<Value>> {
    None
}

pub struct User(*mut c_void);
unsafe impl Send for User {}

unsafe fn string(p: *const c_char) -> Value {
    if p.is_null() {
        return Value::Null;
    }
    let v = match CStr::from_ptr(p).to_str() {
        Ok(s) => json!(s),
        Err(_) => json!({"not": "utf-8"}),
    };
    drop(CString::from_raw(p as *mut c_char));
    v
}
unsafe fn text(p: *mut c_void) -> Value {
    let mut v = Vec::new();
    loop {
        let i = ced_text_next_item(p);
        if i.is_null() {
            break;
        }
        v.push(json!({"text": string((*i).text), "face": string((*i).face)}));
        ced_text_item_destroy(i);
    }
    ced_text_iterator_destroy(p);
    Value::Array(v)
}
unsafe fn event(e: *mut CEvent) -> Value {
    let v = match &*e {
        CEvent::Echo { message } => json!(["echo", text(*message)]),
        CEvent::Info { client, session } => json!(["info", string(*client), string(*session)]),
        CEvent::Menu { command, title, search, items, selected } => {
            json!(["menu", {"command": string(*command), "title": string(*title), "search": string(*search),
                "selected": selected, "entries": entries(*items)}])
        }
        CEvent::Status { items } => {
            let mut v = Vec::new();
            loop {
                let i = ced_status_next_item(*items);
                if i.is_null() {
                    break;
                }
                let c = &*i;
                v.push(json!({"index": c.index, "text": text(c.text)}));
                ced_status_item_destroy(i);
            }
            ced_status_iterator_destroy(*items);
            json!(["status", v])
        }
        CEvent::View { items } => {
            let mut v = Vec::new();
            loop {
                let i = ced_view_next_item(*items);
                if i.is_null() {
                    break;
                }
                let c = &*i;
                let mut lenses = Vec::new();
                loop {
                    let l = ced_view_lens_next_item(c.lenses);
                    if l.is_null() {
                        break;
                    }
                    let cl = &*l;
                    // the interface has no way to read the lines
                    let _ = cl.lines;
                    lenses.push(json!({"first_line_num": cl.first_line_num}));
                    ced_view_lens_destroy(l);
                }
                ced_view_lens_iterator_destroy(c.lenses);
                v.push(json!({"buffer": string(c.buffer), "start": c.start, "end": c.end, "lenses": lenses}));
                ced_view_item_destroy(i);
            }
            ced_view_iterator_destroy(*items);
            json!(["view", v])
        }
    };
    ced_event_destroy(e);
    v
}

pub enum Got {
    Event(Value),
    /// nothing came in time
    Nothing,
    Error(String),
}

fn last_error() -> Option<String> {
    unsafe {
        let n = ced_last_error_length();
        if n < 0 {
            return None;
        }
        let mut b = vec![1u8; n as usize + 1];
        let m = ced_last_error_message(b.as_mut_ptr() as *mut c_char, n + 1);
        Some(if m == n && b[n as usize] == 0 {
            String::from_utf8_lossy(&b[..n as usize]).to_string()
        } else {
            format!("(error message of {} bytes gave {})", n, m)
        })
    }
}

impl User {
    pub fn create(session: &str) -> Result<User, String> {
        let s = CString::new(session).unwrap();
        let p = unsafe { ced_connection_create(s.as_ptr()) };
        if p.is_null() {
            return Err(last_error().unwrap_or_else(|| "(no error message)".into()));
        }
        Ok(User(p))
    }
    pub fn next(&self) -> Got {
        unsafe {
            let e = ced_connection_next_event(self.0);
            if e.is_null() {
                return match last_error() {
                    Some(m) => Got::Error(m),
                    None => Got::Nothing,
                };
            }
            Got::Event(event(e))
        }
    }
    pub fn destroy(self) {
        unsafe { ced_connection_destroy(self.0) }
    }
}
