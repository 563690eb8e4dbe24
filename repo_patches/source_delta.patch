From b52241f771adfbabf50abb380dbc674233f80cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 01/13] fix: refuse stdin and mirror output regardless of iolog
 hints

---
 sudo_pair/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index 6ac49e8..a90558a 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -111,6 +111,11 @@ impl IoPlugin for SudoPair {
 
     const NAME: &'static str = "sudo_pair";
 
+    // the logging hints only describe what the policy wants logged to
+    // disk; a paired session's output must always reach the pair, and
+    // its stdin must always be refused
+    const IGNORE_IOLOG_HINTS: bool = true;
+
     fn open(env: &'static IoEnv) -> Result<Self> {
         let mut slog = slog(Self::NAME, Self::VERSION);
 
-- 
2.43.0


From e000781711226b90f616237c3cb9c94a64d60375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 02/13] fix: require approval for commands whose path is not
 UTF-8

---
 sudo_plugin/src/core.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sudo_plugin/src/core.rs b/sudo_plugin/src/core.rs
index 86e5619..4b9ddf6 100644
--- a/sudo_plugin/src/core.rs
+++ b/sudo_plugin/src/core.rs
@@ -26,7 +26,6 @@ use crate::plugin::{IoEnv, IoPlugin, IoState};
 use crate::sys;
 
 use std::os::raw;
-use std::path::PathBuf;
 use std::panic::{catch_unwind, UnwindSafe};
 
 /// Return codes understood by the `io_plugin.open` callback.
@@ -176,7 +175,7 @@ pub unsafe extern "C" fn open<P: IoPlugin, S: IoState<P>>(
             // fully, we need to make sure it makes its way into static
             // storage before returning, which is why we put this check
             // inside `S::init`
-            if env.command_info.command == PathBuf::default() {
+            if env.command_info.raw.get_bytes(b"command").is_none() {
                 return Err(OpenStatus::Ok);
             }
 
-- 
2.43.0


From af4cc00625d6db04afd11efc3c33dfede1eb6250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 03/13] fix: do not panic on network addresses without a
 netmask

---
 sudo_plugin/src/options/settings.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index 4115411..35be03e 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -327,8 +327,10 @@ impl FromSudoOption for NetAddr {
             .position(|b| *b == b'/' )
             .unwrap_or_else(|| bytes.len());
 
-        let addr = s[        .. mid].parse()?;
-        let mask = s[mid + 1 ..    ].parse()?;
+        let addr = s[.. mid].parse()?;
+
+        // there's no netmask to be found if there wasn't a separator
+        let mask = s.get(mid + 1 ..).unwrap_or_default().parse()?;
 
         Ok(Self {
             addr,
-- 
2.43.0


From 4876a5e58b3833c98d01818342ebdab3ffc5c306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 04/13] fix: never pass printed text as a printf format string

---
 sudo_plugin/src/output/print_facility.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudo_plugin/src/output/print_facility.rs b/sudo_plugin/src/output/print_facility.rs
index 0c19d59..3970d4d 100644
--- a/sudo_plugin/src/output/print_facility.rs
+++ b/sudo_plugin/src/output/print_facility.rs
@@ -109,7 +109,7 @@ impl Write for PrintFacility {
         let count = unsafe {
             // TODO: level should be bitflags when we start implementing the
             // full conversation interface
-            (printf)(self.level as _, message.as_ptr())
+            (printf)(self.level as _, b"%s\0".as_ptr().cast(), message.as_ptr())
         };
 
         #[allow(clippy::cast_sign_loss)]
-- 
2.43.0


From 3edb953fecbea1e951ef7ebf4f838d2b39dd776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 05/13] fix: recognize an explicit group whose name is not
 UTF-8

---
 sudo_pair/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index a90558a..9fbfcd3 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -554,7 +554,7 @@ impl SudoPair {
 
     // returns true if `-g` was specified
     fn is_sudoing_to_explicit_group(&self) -> bool {
-        self.env.settings.runas_group.is_some()
+        self.env.settings.raw.get_bytes(b"runas_group").is_some()
     }
 
     fn socket_path(&self) -> PathBuf {
-- 
2.43.0


From 95d0ffd7bf210a6b303ad846d114ffce256e1347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 06/13] fix: report each cause of an error once instead of
 looping forever

---
 sudo_plugin/src/output/print_facility.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sudo_plugin/src/output/print_facility.rs b/sudo_plugin/src/output/print_facility.rs
index 3970d4d..ce6009c 100644
--- a/sudo_plugin/src/output/print_facility.rs
+++ b/sudo_plugin/src/output/print_facility.rs
@@ -88,8 +88,11 @@ impl PrintFacility {
         // stabilized
         self.write_line(format!("{}", error).as_bytes())?;
 
-        while let Some(error) = error.source() {
-            self.write_line(format!("{}", error).as_bytes())?;
+        let mut error = error;
+
+        while let Some(source) = error.source() {
+            self.write_line(format!("{}", source).as_bytes())?;
+            error = source;
         }
 
         Ok(())
-- 
2.43.0


From fc60f1e21a466760cf75dbf3ae2b3cf2bfb9f214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 07/13] fix: read the BSD authentication type from the key sudo
 uses

---
 sudo_plugin/src/options/settings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index 35be03e..ad567da 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -279,7 +279,7 @@ impl TryFrom<OptionMap> for Settings {
             plugin_path: value.get("plugin_path")?,
             progname:    value.get("progname")?,
 
-            bsd_auth_type:        value.get("bsd_auth_type")       .ok(),
+            bsd_auth_type:        value.get("bsdauth_type")        .ok(),
             close_from:           value.get("closefrom")           .ok(),
             debug_flags:          value.get("debug_flags")         .ok(),
             debug_level:          value.get("debug_level")         .ok(),
-- 
2.43.0


From cd345ccfbc5943c118e1682cb6de0e6be69bcb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 08/13] fix: parse the umask of a command as the octal number
 it is

---
 sudo_plugin/src/options/command_info.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index 9c56cb9..e8750d5 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -253,7 +253,11 @@ impl TryFrom<OptionMap> for CommandInfo {
             runas_uid,
             runas_egid:    value.get("runas_egid").unwrap_or(runas_gid),
             runas_euid:    value.get("runas_euid").unwrap_or(runas_uid),
-            umask:         value.get("umask").unwrap_or(0o7777),
+
+            // unlike every other number, sudo provides this one in octal
+            umask: value.get_str("umask")
+                .and_then(|umask| mode_t::from_str_radix(umask, 8).ok())
+                .unwrap_or(0o7777),
 
             chroot:            value.get("chroot")            .ok(),
             close_from:        value.get("closefrom")         .ok(),
-- 
2.43.0


From ba48f0f3db17a44d7bbd0e8165b74b5978fe5211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 09/13] fix: only accept directories as the socket directory

---
 sudo_pair/src/socket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudo_pair/src/socket.rs b/sudo_pair/src/socket.rs
index eaf45c6..6ef429e 100644
--- a/sudo_pair/src/socket.rs
+++ b/sudo_pair/src/socket.rs
@@ -171,7 +171,7 @@ impl Socket {
 
             let stat = stat.assume_init();
 
-            if stat.st_mode & libc::S_IFDIR == 0 {
+            if stat.st_mode & libc::S_IFMT != libc::S_IFDIR {
                 return Err(Error::new(ErrorKind::Other, format!(
                     "the socket path {} is not a directory",
                     parent.to_string_lossy(),
-- 
2.43.0


From 2c72df9e2c2af0f726f330854e7ee2c0c069e412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 10/13] fix: clean up the socket when its descriptor does not
 fit an fd_set

---
 sudo_pair/src/socket.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sudo_pair/src/socket.rs b/sudo_pair/src/socket.rs
index 6ef429e..63dce79 100644
--- a/sudo_pair/src/socket.rs
+++ b/sudo_pair/src/socket.rs
@@ -72,6 +72,15 @@ impl Socket {
                 let     fd      = listener.as_raw_fd();
                 let mut readfds = mem::MaybeUninit::<libc::fd_set>::uninit();
 
+                // `FD_SET` panics on descriptors that an `fd_set` can't
+                // hold, which would skip the cleanup below
+                if fd as usize >= libc::FD_SETSIZE {
+                    return Err(Error::new(
+                        ErrorKind::Other,
+                        "too many open file descriptors",
+                    ));
+                }
+
                 libc::FD_ZERO(readfds.as_mut_ptr());
 
                 let mut readfds = readfds.assume_init();
-- 
2.43.0


From 810b7fc08013f137128c38a8177044a3590c8891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:43 +0000
Subject: [PATCH 11/13] fix: keep a panicking error conversion inside the panic
 boundary

---
 sudo_plugin/src/core.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/core.rs b/sudo_plugin/src/core.rs
index 4b9ddf6..ba8480b 100644
--- a/sudo_plugin/src/core.rs
+++ b/sudo_plugin/src/core.rs
@@ -123,7 +123,9 @@ fn catch_unwind_open<T: std::fmt::Debug + Into<OpenStatus>, F: FnOnce() -> T + U
 }
 
 fn catch_unwind_log<T: Into<LogStatus>, F: FnOnce() -> T + UnwindSafe>(f: F) -> i32 {
-    Into::<LogStatus>::into(catch_unwind(f)) as _
+    // the conversion may run code of the plugin's author, which must not
+    // be able to unwind out of here
+    Into::<LogStatus>::into(catch_unwind(|| -> LogStatus { f().into() })) as _
 }
 
 #[doc(hidden)]
-- 
2.43.0


From 126cb1cd574626e0900623a9f799c4e6d5460026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 12/13] fix: do not evaluate the approval script's arguments as
 arithmetic

---
 sample/bin/sudo_approve | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sample/bin/sudo_approve b/sample/bin/sudo_approve
index ec412ef..f4d678c 100755
--- a/sample/bin/sudo_approve
+++ b/sample/bin/sudo_approve
@@ -104,7 +104,8 @@ main() {
     fi
 }
 
-case "$#" in
-    2) main "${SUDO_SOCKET_PATH}" "$1" "$2" ;;
-    *) usage ;;
-esac
+# only plain numbers: anything else would be evaluated as an arithmetic
+# expression (and could run commands) before its owner was checked
+[[ $# -eq 2 && "${1}" =~ ^[0-9]+$ && "${2}" =~ ^[0-9]+$ ]] || usage
+
+main "${SUDO_SOCKET_PATH}" "${1}" "${2}"
-- 
2.43.0


From b6004f36dcb1c3411c86d0e9fc502223ffe26d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 13/13] fix: show the remote host and the command timeout in
 the invocation

---
 sudo_plugin/src/options/settings.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index ad567da..70034da 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -266,6 +266,20 @@ impl Settings {
             flags.push(flag);
         }
 
+        if let Some(ref remote_host) = self.remote_host {
+            let mut flag = b"--host ".to_vec();
+            flag.extend_from_slice(remote_host.as_bytes());
+
+            flags.push(flag);
+        }
+
+        if let Some(ref timeout) = self.timeout {
+            let mut flag = b"--command-timeout ".to_vec();
+            flag.extend_from_slice(timeout.as_bytes());
+
+            flags.push(flag);
+        }
+
         flags
     }
 }
-- 
2.43.0

