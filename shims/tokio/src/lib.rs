//! Simulated tokio: the parts that touch the operating system (tasks, sockets, time) are replaced
//! by `simrt`; everything else is the real crate.
pub use tokio_real::{join, pin, sync, try_join};
#[doc(hidden)]
pub use tokio_real::{count, count_field, select_priv_clean_pattern, select_priv_declare_output_enum, select_variant};
pub use tokio_main_sim::{main, test};
pub use task::spawn;
pub mod io {
    pub use tokio_real::io::*;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Interest(u8);
    impl Interest {
        pub const READABLE: Interest = Interest(1);
        pub const WRITABLE: Interest = Interest(2);
        pub const fn is_readable(self) -> bool { self.0 & 1 != 0 }
        pub const fn is_writable(self) -> bool { self.0 & 2 != 0 }
        pub const fn add(self, o: Interest) -> Interest { Interest(self.0 | o.0) }
    }
    impl std::ops::BitOr for Interest { type Output = Interest; fn bitor(self, o: Interest) -> Interest { self.add(o) } }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Ready(u8);
    impl Ready {
        pub const EMPTY: Ready = Ready(0);
        pub(crate) fn of(r: bool, w: bool) -> Ready { Ready(r as u8 | (w as u8) << 1) }
        pub fn is_empty(self) -> bool { self.0 == 0 }
        pub fn is_readable(self) -> bool { self.0 & 1 != 0 }
        pub fn is_writable(self) -> bool { self.0 & 2 != 0 }
    }
}
pub mod signal { pub async fn ctrl_c() -> std::io::Result<()> { std::future::pending().await } }
pub mod fs {
    //! Files are read at once.
    pub async fn read<P: AsRef<std::path::Path>>(p: P) -> std::io::Result<Vec<u8>> { std::fs::read(p) }
    pub async fn read_to_string<P: AsRef<std::path::Path>>(p: P) -> std::io::Result<String> { std::fs::read_to_string(p) }
}
mod select;
pub mod net;
pub mod runtime;
pub mod task;
pub mod time;
pub mod macros {
    pub mod support {
        pub use tokio_real::macros::support::*;
        pub fn thread_rng_n(n: u32) -> u32 { simrt::select_start(n) }
    }
}
