//! Stand-in for the nanoid crate: different ids in no particular order.
use std::sync::atomic::{AtomicU64, Ordering};

static NEXT: AtomicU64 = AtomicU64::new(1);

pub fn id(size: usize) -> String {
    let mut n = NEXT.fetch_add(1, Ordering::SeqCst).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    let mut s = String::new();
    while s.len() < size.max(5) {
        s.push(char::from(b"0123456789abcdefghijklmnopqrstuv"[(n & 31) as usize]));
        n = n.rotate_right(5);
    }
    // five letters of a mixed counter could repeat, the counter itself cannot
    format!("{}{}", s, NEXT.load(Ordering::SeqCst))
}

#[macro_export]
macro_rules! nanoid {
    () => {
        $crate::id(21)
    };
    ($size:expr) => {
        $crate::id($size as usize)
    };
    ($size:expr, $alphabet:expr) => {{
        let _ = $alphabet;
        $crate::id($size as usize)
    }};
}

pub mod alphabet {
    pub const SAFE: [char; 1] = ['0'];
}
