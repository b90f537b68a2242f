// Entry points the model checker calls. Every argument is a pointer or a byte so that no value that may contain
// uninitialized bytes is passed through an integer by this harness itself.
#![no_std]
#![feature(macro_metavar_expr_concat, formatting_options)]
#![allow(dead_code, unused)]
use atomic_maybe_uninit::AtomicMaybeUninit;
use core::mem::MaybeUninit;
use core::sync::atomic::Ordering;

#[inline(always)]
unsafe fn ord(o: u8) -> Ordering {
    match o {
        0 => Ordering::Relaxed,
        1 => Ordering::Acquire,
        2 => Ordering::Release,
        3 => Ordering::AcqRel,
        _ => Ordering::SeqCst,
    }
}

macro_rules! common {
    ($ty:ident $m:ident) => {
        pub mod $m {
            use super::*;
            type A = AtomicMaybeUninit<$ty>;
            type V = MaybeUninit<$ty>;
            // ---- construction / conversion (C14)
            #[no_mangle]
            pub unsafe fn ${concat(new_, $ty)}(out: *mut A, v: *const V) {
                out.write(A::new(v.read()))
            }
            #[no_mangle]
            pub unsafe fn ${concat(constnew_, $ty)}(out: *mut A, v: *const V) {
                out.write(A::const_new(v.read()))
            }
            #[no_mangle]
            pub unsafe fn ${concat(frommu_, $ty)}(out: *mut A, v: *const V) {
                out.write(A::from(v.read()))
            }
            #[no_mangle]
            pub unsafe fn ${concat(fromval_, $ty)}(out: *mut A, v: *const $ty) {
                out.write(A::from(v.read()))
            }
            #[no_mangle]
            pub unsafe fn ${concat(intoinner_, $ty)}(a: *mut A, out: *mut V) {
                out.write(a.read().into_inner())
            }
            #[no_mangle]
            pub unsafe fn ${concat(getmutset_, $ty)}(a: *mut A, v: *const V) {
                *(*a).get_mut() = v.read();
            }
            #[no_mangle]
            pub unsafe fn ${concat(getmutget_, $ty)}(a: *mut A, out: *mut V) {
                out.write(*(*a).get_mut());
            }
            #[no_mangle]
            pub unsafe fn ${concat(asptrset_, $ty)}(a: *const A, v: *const V) {
                (*a).as_ptr().write(v.read());
            }
            #[no_mangle]
            pub unsafe fn ${concat(asptrget_, $ty)}(a: *const A, out: *mut V) {
                out.write((*a).as_ptr().read());
            }
            #[no_mangle]
            pub unsafe fn ${concat(fromptrset_, $ty)}(a: *mut V, v: *const V) {
                A::from_ptr(a).as_ptr().write(v.read());
            }
            #[no_mangle]
            pub unsafe fn ${concat(fromptrget_, $ty)}(a: *mut V, out: *mut V) {
                out.write(A::from_ptr(a).as_ptr().read());
            }
            #[no_mangle]
            pub unsafe fn ${concat(debugfmt_, $ty)}(a: *const A, alt: u8, buf: *mut u8, cap: usize) -> usize {
                use core::fmt::Write;
                struct W(*mut u8, usize, usize);
                impl Write for W {
                    fn write_str(&mut self, s: &str) -> core::fmt::Result {
                        let b = s.as_bytes();
                        let mut i = 0;
                        while i < b.len() {
                            if self.2 < self.1 {
                                unsafe { self.0.add(self.2).write(b[i]) };
                                self.2 += 1;
                            }
                            i += 1;
                        }
                        Ok(())
                    }
                }
                let mut w = W(buf, cap, 0);
                let mut o = core::fmt::FormattingOptions::new();
                if alt & 1 != 0 {
                    o.alternate(true);
                }
                if alt & 2 != 0 {
                    o.width(Some(40));
                }
                if alt & 4 != 0 {
                    o.sign(Some(core::fmt::Sign::Plus));
                }
                if alt & 8 != 0 {
                    o.debug_as_hex(Some(core::fmt::DebugAsHex::Lower));
                }
                let _ = core::fmt::Debug::fmt(&*a, &mut core::fmt::Formatter::new(&mut w, o));
                w.2
            }
        }
    };
}
macro_rules! load {
    ($ty:ident) => {
        #[no_mangle]
        pub unsafe fn ${concat(load_, $ty)}(p: *const u8, o: u8, out: *mut MaybeUninit<$ty>) {
            out.write((*(p as *const AtomicMaybeUninit<$ty>)).load(ord(o)))
        }
    };
}
macro_rules! store {
    ($ty:ident) => {
        #[no_mangle]
        pub unsafe fn ${concat(store_, $ty)}(p: *const u8, o: u8, v: *const MaybeUninit<$ty>) {
            (*(p as *const AtomicMaybeUninit<$ty>)).store(v.read(), ord(o))
        }
    };
}
macro_rules! swap {
    ($ty:ident) => {
        #[no_mangle]
        pub unsafe fn ${concat(swap_, $ty)}(
            p: *const u8,
            o: u8,
            v: *const MaybeUninit<$ty>,
            out: *mut MaybeUninit<$ty>,
        ) {
            out.write((*(p as *const AtomicMaybeUninit<$ty>)).swap(v.read(), ord(o)))
        }
    };
}
macro_rules! cas {
    ($ty:ident) => {
        #[no_mangle]
        pub unsafe fn ${concat(cas_, $ty)}(
            p: *const u8,
            cur: *const MaybeUninit<$ty>,
            new: *const MaybeUninit<$ty>,
            s: u8,
            f: u8,
            out: *mut MaybeUninit<$ty>,
        ) -> u8 {
            match (*(p as *const AtomicMaybeUninit<$ty>)).compare_exchange(cur.read(), new.read(), ord(s), ord(f)) {
                Ok(v) => {
                    out.write(v);
                    1
                }
                Err(v) => {
                    out.write(v);
                    0
                }
            }
        }
        #[no_mangle]
        pub unsafe fn ${concat(casw_, $ty)}(
            p: *const u8,
            cur: *const MaybeUninit<$ty>,
            new: *const MaybeUninit<$ty>,
            s: u8,
            f: u8,
            out: *mut MaybeUninit<$ty>,
        ) -> u8 {
            match (*(p as *const AtomicMaybeUninit<$ty>)).compare_exchange_weak(cur.read(), new.read(), ord(s), ord(f)) {
                Ok(v) => {
                    out.write(v);
                    1
                }
                Err(v) => {
                    out.write(v);
                    0
                }
            }
        }
        // fetch_update with f(x) = None on the call number `none_at` (0-based), else x + delta bytewise (wrapping
        // per byte, initialized bytes only matter). log[0] counts the calls of f; the last argument is kept.
        #[no_mangle]
        pub unsafe fn ${concat(fu_, $ty)}(
            p: *const u8,
            set: u8,
            fetch: u8,
            delta: *const MaybeUninit<$ty>,
            none_at: u8,
            calls: *mut u8,
            lastarg: *mut MaybeUninit<$ty>,
            lastret: *mut MaybeUninit<$ty>,
            out: *mut MaybeUninit<$ty>,
        ) -> u8 {
            let mut n: u8 = 0;
            let r = (*(p as *const AtomicMaybeUninit<$ty>)).fetch_update(ord(set), ord(fetch), |x| {
                lastarg.write(x);
                let k = n;
                n = k.wrapping_add(1);
                calls.write(n);
                if k == none_at {
                    None
                } else {
                    let mut y = MaybeUninit::<$ty>::uninit();
                    y.write(x.assume_init().wrapping_add(delta.read().assume_init()));
                    lastret.write(y);
                    Some(y)
                }
            });
            match r {
                Ok(v) => {
                    out.write(v);
                    1
                }
                Err(v) => {
                    out.write(v);
                    0
                }
            }
        }
        // fetch_update where f returns None exactly for the value *stop.
        #[no_mangle]
        pub unsafe fn ${concat(fus_, $ty)}(
            p: *const u8,
            set: u8,
            fetch: u8,
            delta: *const MaybeUninit<$ty>,
            stop: *const MaybeUninit<$ty>,
            calls: *mut u8,
            lastarg: *mut MaybeUninit<$ty>,
            lastret: *mut MaybeUninit<$ty>,
            out: *mut MaybeUninit<$ty>,
        ) -> u8 {
            let mut n: u8 = 0;
            let r = (*(p as *const AtomicMaybeUninit<$ty>)).fetch_update(ord(set), ord(fetch), |x| {
                lastarg.write(x);
                n = n.wrapping_add(1);
                calls.write(n);
                if x.assume_init() == stop.read().assume_init() {
                    None
                } else {
                    let mut y = MaybeUninit::<$ty>::uninit();
                    y.write(x.assume_init().wrapping_add(delta.read().assume_init()));
                    lastret.write(y);
                    Some(y)
                }
            });
            match r {
                Ok(v) => {
                    out.write(v);
                    1
                }
                Err(v) => {
                    out.write(v);
                    0
                }
            }
        }
    };
}
common!(i8 m_i8);
#[cfg(load_i8)]
load!(i8);
#[cfg(store_i8)]
store!(i8);
#[cfg(swap_i8)]
swap!(i8);
#[cfg(cas_i8)]
cas!(i8);
common!(u8 m_u8);
#[cfg(load_u8)]
load!(u8);
#[cfg(store_u8)]
store!(u8);
#[cfg(swap_u8)]
swap!(u8);
#[cfg(cas_u8)]
cas!(u8);
common!(i16 m_i16);
#[cfg(load_i16)]
load!(i16);
#[cfg(store_i16)]
store!(i16);
#[cfg(swap_i16)]
swap!(i16);
#[cfg(cas_i16)]
cas!(i16);
common!(u16 m_u16);
#[cfg(load_u16)]
load!(u16);
#[cfg(store_u16)]
store!(u16);
#[cfg(swap_u16)]
swap!(u16);
#[cfg(cas_u16)]
cas!(u16);
common!(i32 m_i32);
#[cfg(load_i32)]
load!(i32);
#[cfg(store_i32)]
store!(i32);
#[cfg(swap_i32)]
swap!(i32);
#[cfg(cas_i32)]
cas!(i32);
common!(u32 m_u32);
#[cfg(load_u32)]
load!(u32);
#[cfg(store_u32)]
store!(u32);
#[cfg(swap_u32)]
swap!(u32);
#[cfg(cas_u32)]
cas!(u32);
common!(i64 m_i64);
#[cfg(load_i64)]
load!(i64);
#[cfg(store_i64)]
store!(i64);
#[cfg(swap_i64)]
swap!(i64);
#[cfg(cas_i64)]
cas!(i64);
common!(u64 m_u64);
#[cfg(load_u64)]
load!(u64);
#[cfg(store_u64)]
store!(u64);
#[cfg(swap_u64)]
swap!(u64);
#[cfg(cas_u64)]
cas!(u64);
common!(i128 m_i128);
#[cfg(load_i128)]
load!(i128);
#[cfg(store_i128)]
store!(i128);
#[cfg(swap_i128)]
swap!(i128);
#[cfg(cas_i128)]
cas!(i128);
common!(u128 m_u128);
#[cfg(load_u128)]
load!(u128);
#[cfg(store_u128)]
store!(u128);
#[cfg(swap_u128)]
swap!(u128);
#[cfg(cas_u128)]
cas!(u128);
common!(isize m_isize);
#[cfg(load_isize)]
load!(isize);
#[cfg(store_isize)]
store!(isize);
#[cfg(swap_isize)]
swap!(isize);
#[cfg(cas_isize)]
cas!(isize);
common!(usize m_usize);
#[cfg(load_usize)]
load!(usize);
#[cfg(store_usize)]
store!(usize);
#[cfg(swap_usize)]
swap!(usize);
#[cfg(cas_usize)]
cas!(usize);
