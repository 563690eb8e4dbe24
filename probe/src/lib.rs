//! Plugins whose every method is opaque: the analyses of sudo_plugin treat
//! the bodies below as unknown code (any result, or a panic), so what they
//! establish holds for every plugin author's code.
#![allow(static_mut_refs, non_upper_case_globals)]

use std::fmt;
use sudo_plugin::prelude::*;

/// An arbitrary plugin error: any status, any message, any cause.
#[derive(Debug)]
pub struct AnyError;

impl fmt::Display for AnyError {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { unimplemented!() }
}
impl std::error::Error for AnyError {}
impl From<Error> for AnyError {
    fn from(_: Error) -> Self { unimplemented!() }
}
impl From<AnyError> for OpenStatus {
    fn from(_: AnyError) -> Self { unimplemented!() }
}
impl From<AnyError> for LogStatus {
    fn from(_: AnyError) -> Self { unimplemented!() }
}

macro_rules! opaque {
    ($t:ident, $name:expr $(, $ignore:expr)?) => {
        pub struct $t(pub u64);
        impl IoPlugin for $t {
            type Error = AnyError;
            const NAME: &'static str = $name;
            $(const IGNORE_IOLOG_HINTS: bool = $ignore;)?
            fn show_version(_: &IoEnv, _: bool) { unimplemented!() }
            fn open(_: &'static IoEnv) -> Result<Self, AnyError> { unimplemented!() }
            fn close(self, _: i32, _: i32) { unimplemented!() }
            fn log_ttyin(&self, _: &[u8]) -> Result<(), AnyError> { unimplemented!() }
            fn log_ttyout(&self, _: &[u8]) -> Result<(), AnyError> { unimplemented!() }
            fn log_stdin(&self, _: &[u8]) -> Result<(), AnyError> { unimplemented!() }
            fn log_stdout(&self, _: &[u8]) -> Result<(), AnyError> { unimplemented!() }
            fn log_stderr(&self, _: &[u8]) -> Result<(), AnyError> { unimplemented!() }
            fn change_winsize(&self, _: u64, _: u64) -> Result<(), AnyError> { unimplemented!() }
        }
    };
}

// says nothing about hints, so it heeds them
opaque!(Heeding, "probe_heeding");
opaque!(Ignoring, "probe_ignoring", true);

/// A plugin that relies on the default of everything that has one.
pub struct Defaulting;
impl IoPlugin for Defaulting {
    type Error = Error;
    const NAME: &'static str = "probe_defaulting";
    fn open(_: &'static IoEnv) -> Result<Self, Error> { unimplemented!() }
}

sudo_io_plugin! { heeding: Heeding }
sudo_io_plugin! { ignoring: Ignoring }
sudo_io_plugin! { defaulting: Defaulting }

/// Roots that instantiate the library's own error conversions and lookups.
pub fn roots_status(
    e: Error, f: Error,
) -> (OpenStatus, LogStatus) { (e.into(), f.into()) }

/// Every type an option can be looked up as.
pub fn roots_get(m: &OptionMap, k: &str) {
    use std::collections::HashSet;
    use std::path::PathBuf;
    use sudo_plugin::options::settings::NetAddr;
    macro_rules! all { ($($t:ty),*) => { $(let _ = m.get::<$t>(k);)* } }
    all!(bool, i8, u8, i16, u16, i32, u32, i64, u64, String, PathBuf, NetAddr);
    all!(Vec<i8>, Vec<u8>, Vec<i16>, Vec<u16>, Vec<i32>, Vec<u32>, Vec<i64>, Vec<u64>, Vec<PathBuf>, Vec<NetAddr>);
    all!(HashSet<i32>, HashSet<u32>, HashSet<u64>, HashSet<PathBuf>);
    let _ = m.get_str(k);
    let _ = m.get_bytes(k.as_bytes());
}

pub fn roots_env(env: &IoEnv, d: &[u8]) {
    use std::io::Write;
    let mut out = env.stdout();
    let mut err = env.stderr();
    let _ = out.write(d);
    let _ = out.flush();
    let _ = out.write_all(d);
    let _ = out.write_line(d);
    let _ = err.write_error(&Error::UncaughtPanic);
    if let Some(mut t) = env.tty() {
        let _ = t.write(d);
        let _ = t.flush();
    }
    let _ = env.invocation();
    let _ = env.runas_gids();
    let _ = env.cwd();
}

pub fn roots_version(v: u32, env: &IoEnv) -> (u32, u32, u32, u32) {
    use sudo_plugin::sys;
    (sys::sudo_api_mkversion(v, v), sys::sudo_api_version_get_major(v), sys::sudo_api_version_get_minor(v),
     env.api_version.into_ffi())
}

/// How the library's errors read.
pub fn roots_show(e: &Error, env: &IoEnv, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(&env.api_version, f)?;
    std::fmt::Display::fmt(e, f)
}

/// The empty descriptor of each kind of plugin.
pub const EMPTY_POLICY: sudo_plugin::sys::policy_plugin = sudo_plugin::sys::policy_plugin::empty();
pub const EMPTY_IO: sudo_plugin::sys::io_plugin = sudo_plugin::sys::io_plugin::empty();
pub const EMPTY_AUDIT: sudo_plugin::sys::audit_plugin = sudo_plugin::sys::audit_plugin::empty();
pub const EMPTY_APPROVAL: sudo_plugin::sys::approval_plugin = sudo_plugin::sys::approval_plugin::empty();
