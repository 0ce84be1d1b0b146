//! lazy_static with an initialisation the controlled scheduler sees.
#[doc(hidden)]
pub use mystd::sync::OnceLock as __Cell;
pub trait LazyStatic {
    #[doc(hidden)]
    fn initialize(lazy: &Self);
}
pub fn initialize<T: LazyStatic>(lazy: &T) {
    T::initialize(lazy)
}
#[macro_export(local_inner_macros)]
macro_rules! lazy_static {
    ($(#[$a:meta])* static ref $N:ident : $T:ty = $e:expr; $($t:tt)*) => { __lazy_one!($(#[$a])* () $N : $T = $e; $($t)*); };
    ($(#[$a:meta])* pub static ref $N:ident : $T:ty = $e:expr; $($t:tt)*) => { __lazy_one!($(#[$a])* (pub) $N : $T = $e; $($t)*); };
    ($(#[$a:meta])* pub ($($v:tt)+) static ref $N:ident : $T:ty = $e:expr; $($t:tt)*) => { __lazy_one!($(#[$a])* (pub ($($v)+)) $N : $T = $e; $($t)*); };
    () => ();
}
#[doc(hidden)]
#[macro_export(local_inner_macros)]
macro_rules! __lazy_one {
    ($(#[$a:meta])* ($($v:tt)*) $N:ident : $T:ty = $e:expr; $($t:tt)*) => {
        $(#[$a])*
        #[allow(missing_copy_implementations, non_camel_case_types, dead_code)]
        $($v)* struct $N { __private_field: () }
        #[doc(hidden)]
        $($v)* static $N: $N = $N { __private_field: () };
        impl ::core::ops::Deref for $N {
            type Target = $T;
            fn deref(&self) -> &$T {
                static LAZY: $crate::__Cell<$T> = $crate::__Cell::new();
                LAZY.get_or_init(|| $e)
            }
        }
        impl $crate::LazyStatic for $N {
            fn initialize(lazy: &Self) { let _ = &**lazy; }
        }
        lazy_static!($($t)*);
    };
}
