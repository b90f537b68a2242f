// Records, as data in the emitted IR, which traits are implemented and which cfg macros keep their bodies.
#![no_std]
#![allow(dead_code, unused)]
use atomic_maybe_uninit as amu;
use amu::raw::*;
use core::marker::PhantomData;
struct P<T>(PhantomData<T>);
trait Fallback {
    const LOAD: bool = false;
    const STORE: bool = false;
    const SWAP: bool = false;
    const CAS: bool = false;
}
impl<T> Fallback for P<T> {}
impl<T: AtomicLoad> P<T> {
    const LOAD: bool = true;
}
impl<T: AtomicStore> P<T> {
    const STORE: bool = true;
}
impl<T: AtomicSwap> P<T> {
    const SWAP: bool = true;
}
impl<T: AtomicCompareExchange> P<T> {
    const CAS: bool = true;
}
macro_rules! probe {
    ($($ty:ident $name:ident),* $(,)?) => {$(
        #[no_mangle]
        pub static $name: [u8; 7] = [
            P::<$ty>::LOAD as u8,
            P::<$ty>::STORE as u8,
            P::<$ty>::SWAP as u8,
            P::<$ty>::CAS as u8,
            core::mem::size_of::<$ty>() as u8,
            core::mem::size_of::<amu::AtomicMaybeUninit<$ty>>() as u8,
            core::mem::align_of::<amu::AtomicMaybeUninit<$ty>>() as u8,
        ];
    )*};
}
probe!(
    i8 PROBE_i8, u8 PROBE_u8, i16 PROBE_i16, u16 PROBE_u16, i32 PROBE_i32, u32 PROBE_u32, i64 PROBE_i64,
    u64 PROBE_u64, i128 PROBE_i128, u128 PROBE_u128, isize PROBE_isize, usize PROBE_usize,
);
macro_rules! cfgm {
    ($($has:ident $no:ident $n1:ident $n2:ident),* $(,)?) => {$(
        amu::$has! { #[no_mangle] pub static $n1: u8 = 1; }
        amu::$no! { #[no_mangle] pub static $n2: u8 = 1; }
    )*};
}
cfgm!(
    cfg_has_atomic_8 cfg_no_atomic_8 CFG_HAS_8 CFG_NO_8,
    cfg_has_atomic_16 cfg_no_atomic_16 CFG_HAS_16 CFG_NO_16,
    cfg_has_atomic_32 cfg_no_atomic_32 CFG_HAS_32 CFG_NO_32,
    cfg_has_atomic_64 cfg_no_atomic_64 CFG_HAS_64 CFG_NO_64,
    cfg_has_atomic_128 cfg_no_atomic_128 CFG_HAS_128 CFG_NO_128,
    cfg_has_atomic_ptr cfg_no_atomic_ptr CFG_HAS_ptr CFG_NO_ptr,
    cfg_has_atomic_cas cfg_no_atomic_cas CFG_HAS_cas CFG_NO_cas,
);
