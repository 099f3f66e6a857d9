From 72bc561e8698724f7a580d2cff1c44289556da71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:49 +0000
Subject: [PATCH 01/17] fix: don't panic when a process spec has an empty argv

---
 src/procs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/procs.rs b/src/procs.rs
index d8eb0de..5c3f8a4 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -513,8 +513,9 @@ pub fn get_restricted_exe() -> Option<String> {
 
 /// Returns the path to the executable to exec for the process.
 fn get_exe(exe: Option<String>, argv: &Vec<String>) -> String {
-    // Use the explicit exe, if given, else argv[0] per convention.
-    exe.unwrap_or(argv[0].clone())
+    // Use the explicit exe, if given, else argv[0] per convention.  With neither,
+    // the exe is empty, and exec reports an error.
+    exe.or_else(|| argv.first().cloned()).unwrap_or_default()
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From be32b14d67082eddeeea07c5b3666fefd03e21fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:49 +0000
Subject: [PATCH 02/17] fix: don't panic when a process is killed by a signal
 without a name; add SIGSTKFLT

---
 src/res.rs | 4 ++--
 src/sig.rs | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/res.rs b/src/res.rs
index ac283a9..d451f9a 100644
--- a/src/res.rs
+++ b/src/res.rs
@@ -168,7 +168,7 @@ pub struct Status {
     pub exit_code: Option<i32>,
     /// Signal number, if terminated by signal.
     pub signum: Option<i32>,
-    /// Signal name, if terminated by signal.
+    /// Signal name, if terminated by signal and the signal has one.
     pub signal: Option<String>,
     /// True if the process was terminated by a signal and produced a core dump.
     pub core_dump: bool,
@@ -183,7 +183,7 @@ impl Status {
                 (None, Some(libc::WTERMSIG(status)), libc::WCOREDUMP(status))
             }
         };
-        let signal = signum.map(|s| sig::get_abbrev(s).unwrap().to_owned());
+        let signal = signum.and_then(sig::get_abbrev).map(|s| s.to_owned());
         Self {
             status,
             exit_code,
diff --git a/src/sig.rs b/src/sig.rs
index 9035714..76af738 100644
--- a/src/sig.rs
+++ b/src/sig.rs
@@ -41,6 +41,7 @@ lazy_static! {
             ("SIGPIPE"  , 13),
             ("SIGALRM"  , 14),
             ("SIGTERM"  , SIGTERM),
+            ("SIGSTKFLT", 16),
             ("SIGCHLD"  , 17),
             ("SIGCONT"  , 18),
             ("SIGSTOP"  , 19),
-- 
2.43.0


From 723df300bd5fed44668352416e06ba9501c99192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 03/17] fix: keep procstar's own fds out of started programs
 and clear of the fds in their specs

---
 src/err_pipe.rs |  7 +++----
 src/fd.rs       | 30 +++++++++++++++++++++++++-----
 src/procs.rs    |  5 +++--
 src/sys.rs      | 36 +++++++++++++++++++++++++++++-------
 4 files changed, 60 insertions(+), 18 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index 0cdcce9..61560ee 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -54,13 +54,12 @@ impl ErrorWriter {
 }
 
 impl ErrorPipe {
-    pub fn new() -> Result<ErrorPipe> {
+    /// The fds of the pipe are not less than `min_fd`.
+    pub fn new(min_fd: RawFd) -> Result<ErrorPipe> {
         let sys::RWPair {
             read: read_fd,
             write: write_fd,
-        } = sys::pipe()?;
-        sys::set_cloexec(read_fd)?;
-        sys::set_cloexec(write_fd)?;
+        } = sys::pipe(min_fd)?;
         Ok(ErrorPipe { read_fd, write_fd })
     }
 
diff --git a/src/fd.rs b/src/fd.rs
index 8abb461..41d2f9e 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -176,11 +176,14 @@ fn open_unlinked_temp_file(
     fd: RawFd,
     encoding: Option<spec::CaptureEncoding>,
     attached: bool,
+    min_fd: RawFd,
 ) -> Result<FdHandler> {
     // Open a temp file.
     let (tmp_path, tmp_fd) = sys::mkstemp(PATH_TMP_TEMPLATE)?;
+    let tmp_fd = sys::raise_fd(tmp_fd, min_fd);
     // Unlink it.
     std::fs::remove_file(tmp_path)?;
+    let tmp_fd = tmp_fd?;
     // Since it's unlinked, we don't have to deal with it later.
     Ok(FdHandler::UnlinkedFile {
         fd,
@@ -194,6 +197,22 @@ fn open_unlinked_temp_file(
 
 pub struct Pipes {
     fds: BTreeMap<(ProcId, RawFd), RWPair<Option<RawFd>>>,
+    /// Lowest fd to use for pipes and other internal purposes.
+    min_fd: RawFd,
+}
+
+/// Returns the lowest fd greater than all fds `specs` refer to.  We set up those
+/// fds one by one in the child process, so our own fds mustn't be among them.
+pub fn get_min_internal_fd(specs: &spec::Procs) -> RawFd {
+    let mut min_fd = 3;
+    for spec in specs.values() {
+        for (fd_str, fd_spec) in spec.fds.iter() {
+            let fd = parse_fd(fd_str).unwrap_or(0);
+            let dup_fd = if let spec::Fd::Dup { fd } = fd_spec { *fd } else { 0 };
+            min_fd = min_fd.max(fd.max(dup_fd).saturating_add(1));
+        }
+    }
+    min_fd
 }
 
 /// Manages pipes connecting fds in procs.
@@ -202,9 +221,10 @@ pub struct Pipes {
 /// first.  If the read end, we return the read fd and save the write fd, else
 /// vice versa.
 impl Pipes {
-    pub fn new() -> Self {
+    pub fn new(min_fd: RawFd) -> Self {
         Self {
             fds: BTreeMap::new(),
+            min_fd,
         }
     }
 
@@ -216,7 +236,7 @@ impl Pipes {
         match self.fds.get_mut(&key) {
             Some(RWPair { read, .. }) => Ok(read.take().unwrap()),
             None => {
-                let pipe = sys::pipe()?;
+                let pipe = sys::pipe(self.min_fd)?;
                 self.fds.insert(
                     key,
                     RWPair {
@@ -237,7 +257,7 @@ impl Pipes {
         match self.fds.get_mut(&key) {
             Some(RWPair { write, .. }) => Ok(write.take().unwrap()),
             None => {
-                let pipe = sys::pipe()?;
+                let pipe = sys::pipe(self.min_fd)?;
                 self.fds.insert(
                     key,
                     RWPair {
@@ -307,14 +327,14 @@ impl SharedFdHandler {
                 encoding,
                 attached,
                 ..
-            } => open_unlinked_temp_file(fd, encoding, attached)?,
+            } => open_unlinked_temp_file(fd, encoding, attached, pipes.min_fd)?,
 
             spec::Fd::Capture {
                 mode: spec::CaptureMode::Memory,
                 encoding,
                 attached,
             } => {
-                let pipe_fds = sys::pipe()?;
+                let pipe_fds = sys::pipe(pipes.min_fd)?;
                 FdHandler::CaptureMemory {
                     fd,
                     read_fd: pipe_fds.read,
diff --git a/src/procs.rs b/src/procs.rs
index 5c3f8a4..cc07c09 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -553,7 +553,8 @@ pub fn start_procs(
     let _sigchld_task = tokio::spawn(sigchld_watcher.watch());
     let mut tasks = Vec::new();
 
-    let mut pipes = fd::Pipes::new();
+    let min_fd = fd::get_min_internal_fd(&specs);
+    let mut pipes = fd::Pipes::new(min_fd);
 
     for (proc_id, spec) in specs.into_iter() {
         let spec::Proc {
@@ -566,7 +567,7 @@ pub fn start_procs(
         let exe = get_exe(exe, &argv);
         let env = environ::build(std::env::vars(), &env);
 
-        let error_pipe = ErrorPipe::new().unwrap_or_else(|err| {
+        let error_pipe = ErrorPipe::new(min_fd).unwrap_or_else(|err| {
             error!("failed to create pipe: {}", err);
             std::process::exit(1);
         });
diff --git a/src/sys.rs b/src/sys.rs
index b2a3883..6ea776b 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -179,17 +179,39 @@ pub struct RWPair<T> {
     pub write: T,
 }
 
-/// Creates an anonymous pipe.
+/// Moves `fd` to the lowest available fd that is at least `min_fd`, and sets its
+/// close-on-exec flag.  Closes `fd` on failure.
+pub fn raise_fd(fd: RawFd, min_fd: RawFd) -> io::Result<RawFd> {
+    let res = if min_fd <= fd {
+        set_cloexec(fd).map(|()| fd)
+    } else {
+        match unsafe { libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, min_fd) } {
+            -1 => Err(io::Error::last_os_error()),
+            new_fd => Ok(new_fd),
+        }
+    };
+    if !matches!(res, Ok(new_fd) if new_fd == fd) {
+        _ = close(fd);
+    }
+    res
+}
+
+/// Creates an anonymous pipe, for internal use.
 ///
-/// Returns the read and write file descriptors of the ends of the pipe.
-pub fn pipe() -> io::Result<RWPair<RawFd>> {
+/// Returns the read and write file descriptors of the ends of the pipe, which
+/// are close-on-exec and not less than `min_fd`.
+pub fn pipe(min_fd: RawFd) -> io::Result<RWPair<RawFd>> {
     let mut fildes: Vec<fd_t> = vec![-1, 2];
     match unsafe { libc::pipe(fildes.as_mut_ptr()) } {
         -1 => Err(io::Error::last_os_error()),
-        0 => Ok(RWPair {
-            read: fildes[0],
-            write: fildes[1],
-        }),
+        0 => match (raise_fd(fildes[0], min_fd), raise_fd(fildes[1], min_fd)) {
+            (Ok(read), Ok(write)) => Ok(RWPair { read, write }),
+            (Ok(fd), Err(err)) | (Err(err), Ok(fd)) => {
+                _ = close(fd);
+                Err(err)
+            }
+            (Err(err), Err(_)) => Err(err),
+        },
         ret => panic!("pipe returned {}", ret),
     }
 }
-- 
2.43.0


From 69b662414673f35c85700813d923886d26fdcfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 04/17] fix: report strings containing a nul as errors instead
 of panicking in the child process

---
 src/sys.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/sys.rs b/src/sys.rs
index 6ea776b..d2e10b9 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -36,18 +36,14 @@ impl CStringVec {
     pub fn as_ptr(&self) -> *const *const i8 {
         self.ptrs.as_ptr() as *const *const i8
     }
-}
 
-impl<T> From<T> for CStringVec
-where
-    T: IntoIterator<Item = String>,
-{
-    fn from(strings: T) -> Self {
+    /// Fails if a string contains a nul.
+    pub fn new(strings: Vec<String>) -> io::Result<Self> {
         // Build nul-terminated strings.
-        let strs = strings
-            .into_iter()
-            .map(|s| CString::new(s).unwrap())
-            .collect::<Vec<_>>();
+        let mut strs = Vec::with_capacity(strings.len());
+        for string in strings {
+            strs.push(CString::new(string)?);
+        }
 
         // Grab their pointers into an array.
         let mut ptrs = strs
@@ -57,7 +53,7 @@ where
         // NULL-terminate the pointer array.
         ptrs.push(std::ptr::null());
 
-        Self { strs, ptrs }
+        Ok(Self { strs, ptrs })
     }
 }
 
@@ -82,7 +78,8 @@ pub fn dup2(fd: fd_t, fd2: fd_t) -> io::Result<()> {
 }
 
 pub fn execv(exe: String, args: Vec<String>) -> io::Result<()> {
-    let res = unsafe { libc::execv(exe.as_ptr() as *const i8, CStringVec::from(args).as_ptr()) };
+    let args = CStringVec::new(args)?;
+    let res = unsafe { libc::execv(exe.as_ptr() as *const i8, args.as_ptr()) };
     // execv only returns on failure, with result -1.
     assert!(res == -1);
     Err(io::Error::last_os_error())
@@ -95,12 +92,14 @@ pub fn execve(exe: String, args: Vec<String>, env: Env) -> io::Result<()> {
         .map(|(n, v)| format!("{}={}", n, v))
         .collect();
 
-    let exe = CString::new(exe).unwrap();
+    let exe = CString::new(exe)?;
+    let args = CStringVec::new(args)?;
+    let env = CStringVec::new(env)?;
     let res = unsafe {
         libc::execve(
             exe.as_ptr() as *const i8,
-            CStringVec::from(args).as_ptr(),
-            CStringVec::from(env).as_ptr(),
+            args.as_ptr(),
+            env.as_ptr(),
         )
     };
     // execve only returns on failure, with result -1.
@@ -163,8 +162,8 @@ pub fn mkstemp(template: &str) -> io::Result<(PathBuf, fd_t)> {
 }
 
 pub fn open(path: &Path, oflag: c_int, mode: c_int) -> io::Result<fd_t> {
+    let path = CString::new(path.to_str().unwrap())?;
     let fd = unsafe {
-        let path = CString::new(path.to_str().unwrap()).unwrap();
         libc::open(path.as_ptr() as *const i8, oflag, mode)
     };
     match fd {
-- 
2.43.0


From ec77ba9e9af8157b077a8411f2a3229725f5792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 05/17] fix: don't panic in the child process when an error
 message is long or written in parts

---
 src/err_pipe.rs |  8 +++++---
 src/fdio.rs     | 12 +++++++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index 61560ee..b607ade 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -36,9 +36,11 @@ pub struct ErrorWriter {
 
 impl ErrorWriter {
     pub fn write(&self, error: String) -> Result<()> {
-        let bytes = error.as_bytes();
-        // Encode the message len, which cannot be more than 64.
-        assert!(bytes.len() <= u16::MAX as usize);
+        let mut bytes = error.as_bytes();
+        // Encode the message len as 16 bits; truncate anything longer.
+        if bytes.len() > u16::MAX as usize {
+            bytes = &bytes[..u16::MAX as usize];
+        }
         let mut len = BytesMut::with_capacity(2);
         len.put_u16_le(bytes.len() as u16);
 
diff --git a/src/fdio.rs b/src/fdio.rs
index a6e0da4..a8f658d 100644
--- a/src/fdio.rs
+++ b/src/fdio.rs
@@ -40,13 +40,15 @@ pub fn read_usize(fd: fd_t) -> Result<usize> {
 }
 
 pub fn write(fd: fd_t, data: &[u8]) -> Result<()> {
-    match sys::write(fd, data)? {
-        n if n as usize == data.len() => Ok(()),
-        0 => Err(Error::Eof),
-        // FIXME: Handle short write.
+    let mut pos = 0;
+    while pos < data.len() {
         // FIXME: Handle EAGAIN.
-        n => panic!("short write: {} {}", data.len(), n),
+        match sys::write(fd, &data[pos..])? {
+            0 => return Err(Error::Eof),
+            n => pos += n as usize,
+        }
     }
+    Ok(())
 }
 
 /// Writes a string to `fd`.
-- 
2.43.0


From 4379aa14db226171ec25d2a134588edac371a224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 06/17] fix: fail the request instead of ending procstar when
 out of fds or processes

---
 src/procs.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/procs.rs b/src/procs.rs
index cc07c09..206d0e6 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -567,10 +567,14 @@ pub fn start_procs(
         let exe = get_exe(exe, &argv);
         let env = environ::build(std::env::vars(), &env);
 
-        let error_pipe = ErrorPipe::new(min_fd).unwrap_or_else(|err| {
-            error!("failed to create pipe: {}", err);
-            std::process::exit(1);
-        });
+        let error_pipe = match ErrorPipe::new(min_fd) {
+            Ok(error_pipe) => error_pipe,
+            Err(err) => {
+                error!("failed to create pipe: {}", err);
+                _ = pipes.close();
+                return Err(err);
+            }
+        };
 
         let fd_handlers = fds
             .into_iter()
@@ -666,7 +670,16 @@ pub fn start_procs(
                 info!("proc started: {}", child_pid);
             }
 
-            Err(err) => panic!("failed to fork: {}", err),
+            Err(err) => {
+                error!("failed to fork: {}", err);
+                // Close whatever we set up for this proc.
+                for (_, fd_handler) in fd_handlers.iter() {
+                    _ = fd_handler.in_parent();
+                }
+                tokio::task::spawn_local(error_pipe.in_parent());
+                _ = pipes.close();
+                return Err(err.into());
+            }
         }
     }
 
-- 
2.43.0


From 506dcb3b649239133b6eea84bc030717b5c8618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 07/17] fix: don't signal or inspect a process by pid after
 it's been reaped

---
 src/procs.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/procs.rs b/src/procs.rs
index 206d0e6..8b84fd6 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -67,6 +67,10 @@ impl Proc {
     }
 
     pub fn send_signal(&self, signum: Signum) -> Result<(), Error> {
+        // Once the process is reaped, its pid may belong to another process.
+        if self.wait_info.is_some() {
+            return Err(Error::NoProc);
+        }
         match kill(self.pid, signum) {
             Ok(()) => Ok(()),
             Err(err) if err.kind() == std::io::ErrorKind::NotFound => Err(Error::NoProc),
@@ -138,7 +142,11 @@ impl Proc {
         let proc_stat = self
             .proc_stat
             .clone()
-            .or_else(|| ProcStat::load_or_log(self.pid));
+            .or_else(|| match self.wait_info {
+                // Once reaped, the pid may belong to another process.
+                Some(_) => None,
+                None => ProcStat::load_or_log(self.pid),
+            });
 
         res::ProcRes {
             state: self.get_state(),
-- 
2.43.0


From 1d8b6fd04fd45d6622444b58206d8864a11b428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 08/17] fix: don't let the shutdown state go back

---
 src/procs.rs    | 5 ++++-
 src/shutdown.rs | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/procs.rs b/src/procs.rs
index 8b84fd6..70e6d32 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -427,8 +427,11 @@ impl SharedProcs {
         }
     }
 
-    /// Requests shutdown.
+    /// Requests shutdown.  The shutdown state never goes back to an earlier one.
     pub fn set_shutdown(&self, state: shutdown::State) {
+        if state <= self.get_shutdown() {
+            return;
+        }
         self.0.borrow_mut().shutdown.0.send(state.clone()).unwrap();
         self.notify(Notification::ShutDown(state));
         self.check_idling();
diff --git a/src/shutdown.rs b/src/shutdown.rs
index cdfcd39..c545f04 100644
--- a/src/shutdown.rs
+++ b/src/shutdown.rs
@@ -10,7 +10,7 @@ use crate::sig::{get_abbrev, Signum, SIGKILL, SIGTERM};
 
 //------------------------------------------------------------------------------
 
-#[derive(Clone, Debug, Deserialize, Serialize)]
+#[derive(Clone, Debug, Deserialize, PartialEq, PartialOrd, Serialize)]
 #[serde(rename_all = "snake_case")]
 pub enum State {
     /// Running and accepting new processes.
-- 
2.43.0


From 7b4c79cd9cbe75500f6723706d50c6a8e1b3a080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 09/17] fix: parse proc stat lines correctly: ')' in comm,
 device minors, signal sets, exit signal, cguest_time

---
 src/procinfo.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index c9f66d2..4b88ee9 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -87,11 +87,11 @@ pub struct ProcStat {
     /// Process ID of parent process.
     pub ppid: pid_t,
     /// Group ID of process group.
-    pub pgrp: gid_t,
+    pub pgrp: pid_t,
     /// Session ID.
     pub session: pid_t,
     /// Controlling terminal (major, minor) device number.
-    pub tty_nr: (u16, u16),
+    pub tty_nr: (u16, u32),
     /// Group ID of foreground process group on controlling terminal.
     pub tpgid: Option<gid_t>,
     /// Kernel flags word.
@@ -157,7 +157,7 @@ pub struct ProcStat {
     /// Guest time of process.
     pub guest_time: f64,
     /// Guest time of awaited children.
-    pub cguest_time: i64,
+    pub cguest_time: f64,
     // pub start_data: u64,
     // pub end_data: u64,
     // pub start_brk: u64,
@@ -172,7 +172,7 @@ pub struct ProcStat {
 fn expand_sig_bitmap(bits: i32) -> Vec<String> {
     let mut abbrevs = Vec::new();
     for s in 1..sig::NSIG {
-        if bits & (1 << s) != 0 {
+        if bits & (1 << (s - 1)) != 0 {
             abbrevs.push(sig::get_abbrev(s).unwrap_or("???"));
         }
     }
@@ -186,7 +186,7 @@ impl ProcStat {
         let pid = pid.parse::<pid_t>().unwrap();
 
         let (_, text) = text.split_once('(').unwrap();
-        let (comm, text) = text.split_once(')').unwrap();
+        let (comm, text) = text.rsplit_once(')').unwrap();
         let comm = comm.to_owned();
         let text = text.trim();
 
@@ -196,10 +196,10 @@ impl ProcStat {
         let ppid = parts.next().unwrap().parse().unwrap();
         let pgrp = parts.next().unwrap().parse().unwrap();
         let session = parts.next().unwrap().parse().unwrap();
-        let tty_nr = parts.next().unwrap().parse::<u32>().unwrap();
+        let tty_nr = parts.next().unwrap().parse::<i32>().unwrap() as u32;
         let tty_nr = (
-            ((tty_nr >> 8) & 0xff) as u16,
-            ((tty_nr >> 16) | (tty_nr & 0xff)) as u16,
+            ((tty_nr >> 8) & 0xfff) as u16,
+            ((tty_nr >> 12) & 0xfff00) | (tty_nr & 0xff),
         );
         let tpgid = parts.next().unwrap();
         let tpgid = if tpgid == "-1" {
@@ -242,17 +242,13 @@ impl ProcStat {
         let _nswap = parts.next();
         let _cswap = parts.next();
         let exit_signal = parts.next().unwrap().parse::<i32>().unwrap();
-        let exit_signal = if exit_signal == 0 {
-            None
-        } else {
-            Some(sig::get_abbrev(exit_signal).unwrap().to_owned())
-        };
+        let exit_signal = sig::get_abbrev(exit_signal).map(|s| s.to_owned());
         let processor = parts.next().unwrap().parse().unwrap();
         let rt_priority = parts.next().unwrap().parse().unwrap();
         let policy = parts.next().unwrap().parse().unwrap();
         let delayacct_blkio_ticks = parts.next().unwrap().parse::<u64>().unwrap() as f64 / tick;
         let guest_time = parts.next().unwrap().parse::<u64>().unwrap() as f64 / tick;
-        let cguest_time = parts.next().unwrap().parse().unwrap();
+        let cguest_time = parts.next().unwrap().parse::<i64>().unwrap() as f64 / tick;
         let _start_data = parts.next().unwrap();
         let _end_data = parts.next().unwrap();
         let _start_brk = parts.next().unwrap();
-- 
2.43.0


From 1677369a177514f41cabd14cab4c061bf9f9446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 10/17] fix: clip ranges of captured data; reject invalid ones;
 don't disturb the file position shared with the process

---
 src/fd.rs    |  4 +++-
 src/proto.rs |  6 ++++--
 src/sys.rs   | 33 ++++++++++++---------------------
 3 files changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/fd.rs b/src/fd.rs
index 41d2f9e..e12558c 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -500,7 +500,9 @@ impl SharedFdHandler {
             }),
 
             FdHandler::CaptureMemory { buf, encoding, .. } => {
-                let stop = stop.unwrap_or_else(|| buf.len());
+                // Clip to the data we have.
+                let stop = stop.map_or(buf.len(), |stop| stop.min(buf.len()));
+                let start = start.min(stop);
                 Some(FdData {
                     data: buf[start..stop].to_vec(),
                     encoding: *encoding,
diff --git a/src/proto.rs b/src/proto.rs
index 8e7a107..61da485 100644
--- a/src/proto.rs
+++ b/src/proto.rs
@@ -241,7 +241,9 @@ pub async fn handle_incoming(procs: &SharedProcs, msg: IncomingMessage) -> Optio
             stop,
         } => match parse_fd(fd_name) {
             Ok(fd) => {
-                if let Some(proc) = procs.get(proc_id) {
+                if start < 0 || matches!(stop, Some(stop) if stop < start) {
+                    Some(incoming_error(msg, "invalid range"))
+                } else if let Some(proc) = procs.get(proc_id) {
                     match proc
                         .borrow()
                         .get_fd_data(fd, start as usize, stop.map(|s| s as usize))
@@ -250,7 +252,7 @@ pub async fn handle_incoming(procs: &SharedProcs, msg: IncomingMessage) -> Optio
                             proc_id: proc_id.clone(),
                             fd: fd_name.clone(),
                             start,
-                            stop: stop.unwrap_or_else(|| start + (data.len() as i64)),
+                            stop: start + (data.len() as i64),
                             encoding,
                             data,
                         }),
diff --git a/src/sys.rs b/src/sys.rs
index d2e10b9..3667015 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -4,9 +4,9 @@ use libc::{c_int, gid_t, pid_t, rusage, ssize_t, uid_t};
 use std::ffi::CString;
 use std::fs;
 use std::io;
-use std::io::{Read, Seek};
-use std::mem::MaybeUninit;
-use std::os::fd::{FromRawFd, IntoRawFd, RawFd};
+use std::mem::{ManuallyDrop, MaybeUninit};
+use std::os::fd::{FromRawFd, RawFd};
+use std::os::unix::fs::FileExt;
 use std::path::{Path, PathBuf};
 use std::string::String;
 use std::vec::Vec;
@@ -226,24 +226,15 @@ pub fn read(fd: fd_t, buf: &mut [u8]) -> io::Result<usize> {
 /// Reads the contents of a file, starting from position `start`, until position
 /// `stop` or the end.
 pub fn read_from_file(fd: RawFd, start: u64, stop: Option<u64>) -> io::Result<Vec<u8>> {
-    // Wrap the fd in a file object, for convenience.  This takes ownership of the fd.
-    let mut file = unsafe { fs::File::from_raw_fd(fd) };
-    // Seek to front.
-    file.seek(std::io::SeekFrom::Start(start))?;
-    let buf = if let Some(stop) = stop {
-        // Read to indicated stop position.
-        let mut buf = vec![0; if start < stop { stop - start } else { 0 } as usize];
-        file.read_exact(&mut buf)?;
-        buf
-    } else {
-        // Read entire contents.
-        let mut buf = Vec::<u8>::new();
-        file.read_to_end(&mut buf)?;
-        buf
-    };
-
-    // Take back ownership of the fd.
-    assert!(file.into_raw_fd() == fd);
+    // Wrap the fd in a file object, for convenience.  This doesn't take ownership
+    // of the fd.
+    let file = ManuallyDrop::new(unsafe { fs::File::from_raw_fd(fd) });
+    // Clip to the contents.
+    let length = file.metadata()?.len();
+    let stop = stop.map_or(length, |stop| stop.min(length));
+    let mut buf = vec![0; stop.saturating_sub(start) as usize];
+    // Don't seek, as the process may share the file position.
+    file.read_exact_at(&mut buf, start)?;
     Ok(buf)
 }
 
-- 
2.43.0


From 95e95a859230bb394ed766b33c622268117ef5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 11/17] fix: don't panic when a subscriber is more than 1024
 notifications behind

---
 src/procs.rs | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/procs.rs b/src/procs.rs
index 70e6d32..bac869c 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -8,9 +8,7 @@ use std::os::fd::RawFd;
 use std::rc::Rc;
 use std::sync::RwLock;
 use std::time::{Duration, Instant};
-use tokio::sync::broadcast;
-use tokio::sync::broadcast::error::RecvError;
-use tokio::sync::watch;
+use tokio::sync::{mpsc, watch};
 
 use crate::environ;
 use crate::err::Error;
@@ -212,8 +210,9 @@ pub enum Notification {
     ShutDown(shutdown::State),
 }
 
-type NotificationSender = broadcast::Sender<Notification>;
-type NotificationReceiver = broadcast::Receiver<Notification>;
+// Unbounded, as the number of processes is, and subscribers mustn't miss any.
+type NotificationSender = mpsc::UnboundedSender<Notification>;
+type NotificationReceiver = mpsc::UnboundedReceiver<Notification>;
 
 pub struct NotificationSub {
     receiver: NotificationReceiver,
@@ -221,11 +220,7 @@ pub struct NotificationSub {
 
 impl NotificationSub {
     pub async fn recv(&mut self) -> Option<Notification> {
-        match self.receiver.recv().await {
-            Ok(noti) => Some(noti),
-            Err(RecvError::Closed) => None,
-            Err(RecvError::Lagged(i)) => panic!("notification subscriber lagging: {}", i),
-        }
+        self.receiver.recv().await
     }
 }
 
@@ -236,7 +231,7 @@ pub struct Procs {
     procs: BTreeMap<ProcId, SharedProc>,
 
     /// Notification subscriptions.
-    subs: NotificationSender,
+    subs: Vec<NotificationSender>,
 
     /// Shutdown notification channel.
     // FIXME: Use CancellationToken instead?
@@ -251,10 +246,9 @@ pub struct SharedProcs(Rc<RefCell<Procs>>);
 
 impl SharedProcs {
     pub fn new() -> SharedProcs {
-        let (sender, _receiver) = broadcast::channel(1024);
         SharedProcs(Rc::new(RefCell::new(Procs {
             procs: BTreeMap::new(),
-            subs: sender,
+            subs: Vec::new(),
             shutdown: watch::channel(shutdown::State::Active),
         })))
     }
@@ -368,16 +362,17 @@ impl SharedProcs {
     }
 
     pub fn subscribe(&self) -> NotificationSub {
-        NotificationSub {
-            receiver: self.0.borrow().subs.subscribe(),
-        }
+        let (sender, receiver) = mpsc::unbounded_channel();
+        self.0.borrow_mut().subs.push(sender);
+        NotificationSub { receiver }
     }
 
     fn notify(&self, noti: Notification) {
-        let s = self.0.borrow();
-        if s.subs.receiver_count() > 0 {
-            s.subs.send(noti).unwrap();
-        }
+        // Drop subscriptions that have gone away.
+        self.0
+            .borrow_mut()
+            .subs
+            .retain(|sub| sub.send(noti.clone()).is_ok());
     }
 
     /// Sends a signal to all running procs.
-- 
2.43.0


From 533b45a8c2b8bdbb1cc22ddfc6b3706bef021dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 12/17] fix: don't lose notifications while the agent connects

---
 src/agent.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/agent.rs b/src/agent.rs
index c5c3699..ef26a46 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -203,6 +203,9 @@ pub async fn run(
     let mut count = 0;
     let mut done = false;
     while !done {
+        // Subscribe before connecting, so as not to miss changes meanwhile.
+        let mut sub = procs.subscribe();
+
         // FIXME: Find a better way to notify us that we're shutting down.
         if matches!(procs.get_shutdown(), shutdown::State::Done) {
             break;
@@ -243,8 +246,6 @@ pub async fn run(
         interval = cfg.interval_start;
         count = 0;
 
-        let mut sub = procs.subscribe();
-
         // Simultaneously wait for an incoming websocket message or a
         // notification, dispatching either.  Also watch for shutdown.
         while !done {
-- 
2.43.0


From 57c2262fe65d59c2f61958997fa935089f3edc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 13/17] fix: don't let connecting to the agent server hold up
 the shutdown

---
 src/agent.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/agent.rs b/src/agent.rs
index ef26a46..b57eae3 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -213,8 +213,12 @@ pub async fn run(
 
         // (Re)connect to the service.
         info!("agent connecting: {}", connection.url);
-        let (mut sender, mut receiver) = match connect(&mut connection, &procs).await
-        {
+        let connected = tokio::select! {
+            connected = connect(&mut connection, &procs) => connected,
+            // Don't let an unresponsive server hold up the shutdown.
+            _ = procs.wait_for_shutdown() => break,
+        };
+        let (mut sender, mut receiver) = match connected {
             Ok(pair) => {
                 info!("agent connected: {}", connection.url);
                 pair
@@ -228,7 +232,10 @@ pub async fn run(
                 }
 
                 // Take a break.
-                sleep(interval).await;
+                tokio::select! {
+                    _ = sleep(interval) => {},
+                    _ = procs.wait_for_shutdown() => break,
+                }
 
                 // Exponential backoff in interval.
                 interval = interval.mul_f64(cfg.interval_mult);
-- 
2.43.0


From eaf9e68fc4271b3e78d24dc11eae434ae1bb8ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 14/17] fix: never exceed the maximum connect interval, nor
 panic computing it

---
 src/agent.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/agent.rs b/src/agent.rs
index b57eae3..5673438 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -199,7 +199,7 @@ pub async fn run(
 ) -> Result<(), Error> {
     info!("agent starting: {}", connection.url);
 
-    let mut interval = cfg.interval_start;
+    let mut interval = cfg.interval_start.min(cfg.interval_max);
     let mut count = 0;
     let mut done = false;
     while !done {
@@ -238,10 +238,9 @@ pub async fn run(
                 }
 
                 // Exponential backoff in interval.
-                interval = interval.mul_f64(cfg.interval_mult);
-                if cfg.interval_max < interval {
-                    interval = cfg.interval_max;
-                }
+                interval = Duration::try_from_secs_f64(interval.as_secs_f64() * cfg.interval_mult)
+                    .unwrap_or(cfg.interval_max)
+                    .min(cfg.interval_max);
 
                 // Reconnect, after a moment.
                 continue;
@@ -250,7 +249,7 @@ pub async fn run(
         // Connected.  There's now a websocket sender available.
 
         // Once successfully connected, reset the reconnect interval and count.
-        interval = cfg.interval_start;
+        interval = cfg.interval_start.min(cfg.interval_max);
         count = 0;
 
         // Simultaneously wait for an incoming websocket message or a
-- 
2.43.0


From e0cbdf7fef161b532f7808eec73964db0b6d427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 15/17] fix: don't panic after failing to create a pipe between
 processes

---
 src/procs.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/procs.rs b/src/procs.rs
index bac869c..6cb9b63 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -689,8 +689,13 @@ pub fn start_procs(
         }
     }
 
-    // Both ends of all pipes should have been used.
-    assert!(pipes.close().unwrap() == 0);
+    // Both ends of all pipes should have been used, unless we failed to create a
+    // pipe for the other end.
+    match pipes.close() {
+        Ok(0) => {}
+        Ok(count) => warn!("closed unconnected pipe ends: {}", count),
+        Err(err) => error!("failed to close pipes: {}", err),
+    }
 
     Ok(tasks)
 }
-- 
2.43.0


From 90270c14533b1de3c5443377aef96aa7bb360ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 16/17] fix: closing an fd that isn't open is not an error

---
 src/fd.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fd.rs b/src/fd.rs
index e12558c..35d39ba 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -430,9 +430,11 @@ impl SharedFdHandler {
 
             FdHandler::Error { ref mut err } => return Err(std::mem::replace(err, Error::None)),
 
-            FdHandler::Close { fd } => {
-                sys::close(fd)?;
-            }
+            FdHandler::Close { fd } => match sys::close(fd) {
+                // Not open; nothing to do.
+                Err(err) if err.raw_os_error() == Some(libc::EBADF) => {}
+                res => res?,
+            },
 
             FdHandler::Dup { fd, dup_fd } => {
                 if dup_fd != fd {
-- 
2.43.0


From 4b3028d7a7639ec68265e4ac40bceb696e6741ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:14 +0000
Subject: [PATCH 17/17] fix: announce the deletion of the last process before
 the shutdown it completes

---
 src/procs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/procs.rs b/src/procs.rs
index 6cb9b63..cd5117b 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -310,8 +310,10 @@ impl SharedProcs {
         // OK, we can proceed with removing.
         let proc = procs.procs.remove(proc_id).unwrap();
         drop(procs);
-        self.check_idling();
+        // Announce the deletion before a shutdown that it may complete, after
+        // which the agent sends nothing.
         self.notify(Notification::Delete(proc_id.clone()));
+        self.check_idling();
         Ok(proc)
     }
 
-- 
2.43.0

