//! Helpers for file descriptors.
use filedesc::FileDesc;
use std::collections::BTreeMap;

/// Create a memfd: every one has an inode of its own.
pub fn memfd() -> FileDesc {
	let fd = unsafe { libc::memfd_create(b"harness\0".as_ptr() as *const _, libc::MFD_CLOEXEC) };
	assert!(fd >= 0, "memfd_create failed: {}", std::io::Error::last_os_error());
	unsafe { FileDesc::from_raw_fd(fd) }
}

/// Device and inode of a descriptor, if it is open.
pub fn identity(fd: i32) -> Option<(u64, u64)> {
	unsafe {
		let mut st: libc::stat = std::mem::zeroed();
		(libc::fstat(fd, &mut st) == 0).then_some((st.st_dev, st.st_ino))
	}
}

pub fn offset(fd: i32) -> i64 {
	unsafe { libc::lseek(fd, 0, libc::SEEK_CUR) }
}

pub fn set_offset(fd: i32, n: i64) {
	unsafe {
		libc::lseek(fd, n, libc::SEEK_SET);
	}
}

pub fn cloexec(fd: i32) -> bool {
	unsafe { libc::fcntl(fd, libc::F_GETFD) & libc::FD_CLOEXEC != 0 }
}

/// Do both descriptors refer to the same open file description? Checked with the shared file offset.
pub fn same_open_file(a: i32, b: i32, salt: i64) -> bool {
	if identity(a).is_none() || identity(a) != identity(b) {
		return false;
	}
	let old = offset(a);
	set_offset(a, 4242 + salt);
	let r = offset(b) == 4242 + salt;
	set_offset(a, 99 + salt);
	let r = r && offset(b) == 99 + salt;
	set_offset(a, old);
	r
}

/// All open descriptors of the process with what they refer to.
pub fn open_fds() -> BTreeMap<i32, (u64, u64)> {
	let mut out = BTreeMap::new();
	unsafe {
		let dir = libc::opendir(b"/proc/self/fd\0".as_ptr() as *const _);
		assert!(!dir.is_null());
		let own = libc::dirfd(dir);
		loop {
			let e = libc::readdir(dir);
			if e.is_null() {
				break;
			}
			let name = std::ffi::CStr::from_ptr((*e).d_name.as_ptr()).to_string_lossy().to_string();
			if let Ok(fd) = name.parse::<i32>() {
				if fd != own {
					if let Some(id) = identity(fd) {
						out.insert(fd, id);
					}
				}
			}
		}
		libc::closedir(dir);
	}
	out
}

/// Send one datagram with descriptors attached. Returns the error number on failure.
pub fn send_raw(sock: i32, data: &[u8], fds: &[i32]) -> Result<usize, i32> {
	unsafe {
		let mut iov = libc::iovec { iov_base: data.as_ptr() as *mut _, iov_len: data.len() };
		let mut header: libc::msghdr = std::mem::zeroed();
		header.msg_iov = &mut iov;
		header.msg_iovlen = 1;
		let space = libc::CMSG_SPACE((fds.len() * 4) as u32) as usize;
		let mut control = vec![0u64; space / 8 + 2];
		if !fds.is_empty() {
			header.msg_control = control.as_mut_ptr() as *mut _;
			header.msg_controllen = space as _;
			let c = libc::CMSG_FIRSTHDR(&header);
			(*c).cmsg_level = libc::SOL_SOCKET;
			(*c).cmsg_type = libc::SCM_RIGHTS;
			(*c).cmsg_len = libc::CMSG_LEN((fds.len() * 4) as u32) as _;
			std::ptr::copy_nonoverlapping(fds.as_ptr() as *const u8, libc::CMSG_DATA(c), fds.len() * 4);
		}
		let mut tries = 0;
		loop {
			let n = libc::sendmsg(sock, &header, libc::MSG_NOSIGNAL | libc::MSG_DONTWAIT);
			if n >= 0 {
				return Ok(n as usize);
			}
			let e = std::io::Error::last_os_error().raw_os_error().unwrap_or(0);
			// The system limits the descriptors in flight per user: wait for the other cases.
			if e != libc::ETOOMANYREFS || tries == 100 {
				return Err(e);
			}
			tries += 1;
			std::thread::sleep(std::time::Duration::from_millis(5));
		}
	}
}

/// Raise the limit on open descriptors as far as allowed, and return it. It also limits the descriptors in flight of this user.
pub fn fd_limit() -> usize {
	static LIMIT: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
	*LIMIT.get_or_init(|| unsafe {
		let mut l: libc::rlimit = std::mem::zeroed();
		libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
		l.rlim_cur = l.rlim_max.min(100_000);
		libc::setrlimit(libc::RLIMIT_NOFILE, &l);
		libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
		l.rlim_cur as usize
	})
}

static IN_USE: std::sync::Mutex<usize> = std::sync::Mutex::new(0);
static FREED: std::sync::Condvar = std::sync::Condvar::new();

/// Descriptors that a case may use for its messages.
pub struct Room(usize);

impl Room {
	/// Wait until `n` more descriptors may be in use, so that the cases that run at the same time stay below the limits of the system. None if there can never be that many.
	pub fn take(n: usize) -> Option<Self> {
		// A descriptor may be open at the sender, in flight, and open at the receiver.
		let all = fd_limit().saturating_sub(300) / 3;
		if n > all {
			return None;
		}
		let mut used = IN_USE.lock().unwrap();
		while *used + n > all {
			used = FREED.wait(used).unwrap();
		}
		*used += n;
		Some(Self(n))
	}
}

impl Drop for Room {
	fn drop(&mut self) {
		*IN_USE.lock().unwrap() -= self.0;
		FREED.notify_all();
	}
}

/// Did the system refuse more descriptors in flight? That says nothing about the code.
pub fn refused_by_system(result: &Result<(), String>) -> bool {
	matches!(result, Err(e) if e.contains("os error 109") || e.contains("errno 109"))
}
