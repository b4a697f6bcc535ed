//! A timeout that is strict about wake-ups.
use std::future::Future;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

struct Nothing;
impl Wake for Nothing {
	fn wake(self: Arc<Self>) {}
}

struct Gate {
	woken: AtomicBool,
	parent: Mutex<Waker>,
}

impl Wake for Gate {
	fn wake(self: Arc<Self>) {
		self.wake_by_ref()
	}
	fn wake_by_ref(self: &Arc<Self>) {
		self.woken.store(true, Ordering::SeqCst);
		let parent = self.parent.lock().unwrap().clone();
		parent.wake();
	}
}

/// Like the timeout of tokio, but the future is only polled when it was woken.
///
/// Tokio's polls it whenever the task is polled, and once more at the end, which hides that somebody forgot to wake it.
pub async fn timeout<F: Future>(limit: std::time::Duration, f: F) -> Result<F::Output, &'static str> {
	tokio::pin!(f);
	let sleep = tokio::time::sleep(limit);
	tokio::pin!(sleep);
	let gate = Arc::new(Gate { woken: AtomicBool::new(true), parent: Mutex::new(Waker::from(Arc::new(Nothing))) });
	let waker = Waker::from(gate.clone());
	let mut again = 0;
	std::future::poll_fn(move |cx| {
		*gate.parent.lock().unwrap() = cx.waker().clone();
		if gate.woken.swap(false, Ordering::SeqCst) {
			if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
				return Poll::Ready(Ok(x));
			}
		}
		while sleep.as_mut().poll(cx).is_ready() {
			// There may still be progress (a paused clock runs ahead easily).
			if again == 3 || !gate.woken.load(Ordering::SeqCst) {
				return Poll::Ready(Err("timeout"));
			}
			again += 1;
			sleep.as_mut().reset(tokio::time::Instant::now() + limit);
		}
		if gate.woken.load(Ordering::SeqCst) {
			cx.waker().wake_by_ref();
		}
		Poll::Pending
	})
	.await
}
