#[macro_export]
macro_rules! transmute {
    ($e:expr) => {{
        #[allow(unused_unsafe, clippy::all)]
        unsafe { ::core::mem::transmute($e) }
    }};
}
