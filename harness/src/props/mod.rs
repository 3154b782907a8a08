pub mod screen;
pub mod term;
pub mod util;
pub mod input;
pub mod sigs;
pub mod desc;
pub mod forms;
pub mod end;
pub mod pty;
pub mod locks;
pub mod apart;
