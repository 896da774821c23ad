#[path = "cmp.rs"]
pub mod i8;
#[path = "cmp.rs"]
pub mod u8;
#[path = "cmp.rs"]
pub mod i16;
#[path = "cmp.rs"]
pub mod u16;
#[path = "cmp.rs"]
pub mod i32;
#[path = "cmp.rs"]
pub mod u32;
#[path = "cmp.rs"]
pub mod i64;
#[path = "cmp.rs"]
pub mod u64;
#[path = "cmp.rs"]
pub mod i128;
#[path = "cmp.rs"]
pub mod u128;
