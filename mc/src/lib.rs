pub mod dt;
pub mod engine;
pub mod model;
pub mod p_chron;
pub mod p_data;
pub mod p_debug;
pub mod p_dt;
pub mod p_hist;
pub mod p_kind;
pub mod p_prec;
pub mod p_sched;
pub mod p_sys;
pub mod p_tables;
pub mod p_trace;
pub mod tz;
