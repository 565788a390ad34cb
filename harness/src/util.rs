//! Value generators shared by the properties.
use crate::dict;
use crate::engine::Src;

const ODD: &[char] = &[
    'é', 'ß', '\u{a0}', '\u{300}', 'λ', '中', '\u{2003}', '\u{2028}', '\u{2029}', '\u{3000}', '\u{feff}', '\u{fffd}', '😀', '\u{10ffff}',
    '\u{80}', '\u{7ff}', '\u{800}', '\u{85}', 'İ', 'ſ', 'K', 'ﬀ',
];

/// Printable ASCII mostly.
pub fn ascii(s: &mut Src) -> char {
    match s.weighted(&[50, 25, 25]) {
        0 => (b'a' + s.below(26) as u8) as char,
        1 => (b' ' + s.below(95) as u8) as char,
        _ => *s.pick(&['"', '\'', '\\', '/', '*', '{', '}', '(', ')', '[', ']', '`', '$', ';', ',', ':', '<', '>', '!', '-', '+', '=', '&', '|', '@', '#', '.', '0', '9', '_', ' ', ' ']),
    }
}

/// A letter which is an ASCII character in its lowest byte.
pub fn lookalike(s: &mut Src) -> char {
    let c = match s.draw(8) {
        0 => *s.pick(&['\n', '\r', '\t', ' ', '0', '9', 'a', '_', '$']),
        1 => ascii(s),
        _ => *s.pick(&['"', '\'', '\\', '/', '*', '{', '}', '(', ')', '[', ']', '`', ';', ',', ':', '<', '>', '=', '@', '#', '.', '!', '7', '-']),
    };
    // All of both blocks are letters.
    char::from_u32(if s.chance(1, 3) { 0x4e00 } else { 0x100 } + c as u32).unwrap()
}

pub fn odd(s: &mut Src) -> char {
    if s.chance(1, 6) {
        lookalike(s)
    } else if s.chance(1, 5) {
        char::from_u32(s.draw(0x11_0000) as u32).filter(|c| !c.is_ascii()).unwrap_or('é')
    } else {
        *s.pick(ODD)
    }
}

/// Any character, control characters included.
pub fn any_char(s: &mut Src) -> char {
    match s.weighted(&[70, 12, 10, 5, 3]) {
        0 => ascii(s),
        1 => odd(s),
        2 => *s.pick(&['\n', '\t', '\r', '\u{c}', '\u{b}', ' ']),
        3 => {
            let d = dict::get();
            if d.chars.is_empty() {
                'a'
            } else {
                *s.pick(&d.chars)
            }
        }
        _ => char::from_u32(s.draw(0x20) as u32).unwrap(),
    }
}

pub fn any_text(s: &mut Src, typical: usize, max: usize) -> String {
    let n = s.len(typical, max);
    let mut o = String::new();
    for _ in 0..n {
        if s.chance(1, 12) {
            o.push_str(dict_string(s));
        } else {
            o.push(any_char(s));
        }
    }
    o
}

pub fn dict_string(s: &mut Src) -> &'static str {
    let d = dict::get();
    if d.strings.is_empty() {
        "x"
    } else {
        s.pick(&d.strings)
    }
}

/// A size: usually small, at times around a number found in the code under test.
pub fn size(s: &mut Src, typical: usize, max: usize) -> usize {
    if s.chance(1, 25) {
        let d = dict::get();
        if !d.ints.is_empty() {
            let n = *s.pick(&d.ints);
            return (n + s.below(3)).saturating_sub(1).min(max);
        }
    }
    s.len(typical, max)
}

/// Counts what the current thread has allocated and not given back.
pub struct Counting;
thread_local! {
    static LIVE: std::cell::Cell<isize> = const { std::cell::Cell::new(0) };
    static PEAK: std::cell::Cell<isize> = const { std::cell::Cell::new(0) };
}
fn count(n: isize) {
    let _ = LIVE.try_with(|l| {
        let now = l.get() + n;
        l.set(now);
        if n > 0 {
            let _ = PEAK.try_with(|p| p.set(p.get().max(now)));
        }
    });
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as isize);
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as isize);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        count(-(l.size() as isize));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        count(n as isize - l.size() as isize);
        std::alloc::System.realloc(p, l, n)
    }
}
/// The most memory that this thread held during `f` on top of what it held before.
pub fn peak_memory<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(before));
    let r = f();
    (r, PEAK.with(|p| p.get() - before).max(0) as usize)
}
